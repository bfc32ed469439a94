	// a0 roots, a1 format and matching, a2 disk faults while storing, a3 disk faults while reading, a4 seed
	add("dddmp", "f", [](In &I) { if (I.linear) return; DdManager *m = I.m; unsigned long w = I.op->a[1]; bool isAdd = !I.A.empty() && (w & 1); int nr = 1 + (int)(w >> 1 & 1) + (int)(w >> 2 & 1), s = I.sz();
		vector<DdNode *> F; vector<T> fb; vector<D> fa; vector<int> idx; Rng r(I.op->a[4] * 77 + 5);
		for (int i = 0; i < nr; i++) { int j = (int)(((unsigned long)I.op->a[0] + i * 7) % (isAdd ? I.A.size() : I.B.size())); idx.push_back(j); if (isAdd) { for (double v : I.a[j]) { char x[40]; snprintf(x, 40, "%g", v); if (atof(x) != v || std::isinf(v) || std::isnan(v)) return; } F.push_back(I.A[j]); fa.push_back(I.a[j]); } else { F.push_back(I.B[j]); fb.push_back(I.b[j]); } }
		int mode = isAdd || (w >> 3 & 1) ? DDDMP_MODE_TEXT : DDDMP_MODE_BINARY; bool names = w >> 4 & 1, aux = w >> 5 & 1, byName = w >> 6 & 1, rn = w >> 7 & 1, dn = w >> 8 & 1; unsigned vi = (w >> 9) % 5; if (vi == 3 && !names) vi = 0; if (vi == 2 && !aux) vi = 1;
		vector<string> nm(s), rm(nr); vector<char *> vn(s), rp(nr); vector<int> ax(s); for (int i = 0; i < s; i++) { nm[i] = "v" + to_string((i * 37 + 11) % 100); vn[i] = (char *)nm[i].c_str(); ax[i] = (i * 5 + 3) % 41; } for (int i = 0; i < nr; i++) { rm[i] = "root" + to_string(i); rp[i] = (char *)rm[i].c_str(); }
		char dname[] = "diagram";
		auto store = [&](Disk &d, bool unbuf) { simDisk = &d; FILE *fp = byName ? nullptr : openDisk(&d, "w", unbuf); int x = R([&] { return isAdd ? Dddmp_cuddAddArrayStore(m, dn ? dname : nullptr, nr, F.data(), rn ? rp.data() : nullptr, names ? vn.data() : nullptr, aux ? ax.data() : nullptr, mode, (Dddmp_VarInfoType)vi, (char *)"/sim/out", fp) : Dddmp_cuddBddArrayStore(m, dn ? dname : nullptr, nr, F.data(), rn ? rp.data() : nullptr, names ? vn.data() : nullptr, aux ? ax.data() : nullptr, mode, (Dddmp_VarInfoType)vi, (char *)"/sim/out", fp); });
			bool ok = x == DDDMP_SUCCESS; if (fp && fclose(fp) != 0) ok = false; return ok; };
		RES->stores++; Disk ref; { In::Quiet q(I); if (!store(ref, false)) violation("refused_without_cause:store", I.hist() + ": storing the diagrams failed although the disk and the memory were fine"); }
		// the same with a disk that fills up, fails or takes only a part of a request
		Disk bad; unsigned long fw = I.op->a[2]; bad.r = Rng(fw + 1); if (fw & 1) bad.cap = (long)((fw >> 3) % (ref.data.size() + 1)); if (fw & 2) bad.eioAt = (long)((fw >> 3) % 4); if (fw & 4) bad.shortMax = 1 + (fw >> 3) % 16;
		if (fw & 7) { long f0 = SH->fired[FK_WRITE_EIO] + SH->fired[FK_WRITE_ENOSPC] + SH->fired[FK_WRITE_SHORT]; bool ok = store(bad, fw >> 20 & 1); bool hit = SH->fired[FK_WRITE_EIO] + SH->fired[FK_WRITE_ENOSPC] + SH->fired[FK_WRITE_SHORT] > f0;
			if (ok && bad.data != ref.data) violation("torn_store", I.hist() + ": the store reported success but the file has " + to_string(bad.data.size()) + " of " + to_string(ref.data.size()) + " bytes"); if (!ok) { RES->storeFail++; I.unchecked = true; if (!hit) violation("refused_without_cause:store", I.hist() + ": storing failed although no write did"); } }
		// reading back: the same manager or another one with its own order
		for (int pass = 0; pass < 3; pass++) { bool fresh = pass == 1 || (pass == 2 && (I.op->a[3] >> 4 & 1)); unsigned long fr = I.op->a[3]; DdManager *t = m;
			if (fresh) { t = R([&] { return Cudd_Init(s, 0, 16, 64, 1 << 20); }); if (!t) violation("refused_without_cause:Cudd_Init", I.hist()); auto p = rndPerm(s, I.op->a[4] + pass); R([&] { return Cudd_ShuffleHeap(t, p.data()); }); }
			Disk in; in.data = ref.data; in.r = Rng(fr + 3); bool faulty = pass == 2; if (faulty) { if (fr & 1) { in.data.resize((fr >> 5) % (in.data.size() + 1)); fire(FK_TRUNC, in.data.size()); } if (fr & 2) in.eioAt = (fr >> 5) % 3; if (fr & 4) in.shortMax = 1 + (fr >> 5) % 9; }
			else if (I.op->a[4] & 1) in.shortMax = 1 + I.op->a[4] % 7;
			unsigned vm = (I.op->a[3] >> 24) % 5; if (vm == 1 && fresh) vm = 0; if (vm == 2 && !aux) vm = 0; if (vm == 3 && !names) vm = 0; vector<int> comp(s); for (int i = 0; i < s; i++) comp[i] = i;
			simDisk = &in; FILE *fp = byName ? nullptr : openDisk(&in, "r", fr >> 3 & 1); DdNode **P = nullptr;
			int n = R([&] { return isAdd ? Dddmp_cuddAddArrayLoad(t, DDDMP_ROOT_MATCHLIST, nullptr, (Dddmp_VarMatchType)vm, vn.data(), ax.data(), comp.data(), fr >> 25 & 1 ? DDDMP_MODE_DEFAULT : mode, (char *)"/sim/in", fp, &P) : Dddmp_cuddBddArrayLoad(t, DDDMP_ROOT_MATCHLIST, nullptr, (Dddmp_VarMatchType)vm, vn.data(), ax.data(), comp.data(), fr >> 25 & 1 ? DDDMP_MODE_DEFAULT : mode, (char *)"/sim/in", fp, &P); });
			if (fp) fclose(fp); RES->loads++;
			if (n == 0) { RES->loadFail++; bool hit = faulty && ((fr & 3) != 0); if (!hit) violation("refused_without_cause:load", I.hist() + ": reading back a file that was stored without an error failed"); I.unchecked = true; if (!fresh) I.resourceTrouble = true; }
			else { if (n != nr) violation("wrong_result:load", I.hist() + ": " + to_string(n) + " roots instead of " + to_string(nr)); 
				for (int i = 0; i < n; i++) { if (isAdd) { D g = I.ra(P[i]); if (!In::eqD(g, fa[i])) I.bad(In::show(fa[i]), In::show(g)); if (!fresh && P[i] != F[i]) violation("not_canonical", I.hist() + ": the diagram read back is a second copy"); } else { T g = I.rb(P[i]); if (g != fb[i]) I.bad(In::show(fb[i]), In::show(g)); if (!fresh && P[i] != F[i]) violation("not_canonical", I.hist() + ": the diagram read back is a second copy"); } }
				for (int i = 0; i < n; i++) R([&] { Cudd_RecursiveDeref(t, P[i]); return 0; }); R([&] { FREE(P); return 0; }); I.good(); }
			if (fresh) { int zr = Cudd_CheckZeroRef(t), dc = Cudd_DebugCheck(t); if (n && zr) violation("references_leaked", I.hist() + ": after the loaded diagrams were released " + to_string(zr) + " nodes are still referenced"); if (dc) violation("debug_check", I.hist() + ": Cudd_DebugCheck of the manager that was read into returned " + to_string(dc)); R([&] { Cudd_Quit(t); return 0; }); if (!n) I.resourceTrouble = true; } }
		I.unchecked = true; });
	// text forms of diagrams: written completely or reported as failed; the BLIF and factored forms mean the function
	add("dump", "f", [](In &I) { if (I.linear) return; DdManager *m = I.m; unsigned w = (unsigned long)I.op->a[1] % 6; int x = I.ib(0), s = I.sz(); DdNode *f[1] = {I.B[x]}; T fn = I.b[x]; if (w >= 4 && !I.A.empty() && (I.op->a[1] & 64)) f[0] = I.A[I.ia(0)];
		vector<string> nm(s); vector<char *> in(s); for (int i = 0; i < s; i++) { nm[i] = "x" + to_string(i); in[i] = (char *)nm[i].c_str(); } char on[] = "f", *out[1] = {on}, mn[] = "model"; bool nms = I.op->a[4] & 1;
		auto dump = [&](Disk &d, bool unbuf) { FILE *fp = openDisk(&d, "w", unbuf); int r = R([&] { switch (w) { case 0: return Cudd_DumpBlif(m, 1, f, in.data(), out, mn, fp, 0); case 1: return Cudd_DumpBlifBody(m, 1, f, in.data(), out, fp, I.op->a[4] >> 1 & 1); case 2: return Cudd_DumpFactoredForm(m, 1, f, in.data(), out, fp); case 3: return Cudd_DumpDDcal(m, 1, f, in.data(), out, fp); case 4: return Cudd_DumpDaVinci(m, 1, f, nms ? in.data() : nullptr, nms ? out : nullptr, fp); default: return Cudd_DumpDot(m, 1, f, nms ? in.data() : nullptr, nms ? out : nullptr, fp); } }); bool ok = r == 1; if (fclose(fp) != 0) ok = false; return ok; };
		RES->stores++; Disk ref; { In::Quiet q(I); if (!dump(ref, false)) violation("refused_without_cause:dump", I.hist() + ": writing the diagram as text failed although the disk and the memory were fine"); }
		if (w == 0) { // evaluate the BLIF
			map<string, T> val; for (int i = 0; i < s; i++) val[nm[i]] = I.tvar(i); istringstream q(ref.data); string l; vector<string> ins; string o; T acc; vector<pair<vector<string>, pair<string, vector<string>>>> tabs;
			while (getline(q, l)) { while (!l.empty() && l.back() == '\\') { l.pop_back(); string l2; getline(q, l2); l += l2; } istringstream z(l); string k; z >> k; if (k == ".names") { vector<string> a; string y; while (z >> y) a.push_back(y); string oo = a.back(); a.pop_back(); tabs.push_back({a, {oo, {}}}); } else if (!k.empty() && k[0] != '.' && !tabs.empty()) tabs.back().second.second.push_back(l); }
			bool prog = true; while (prog) { prog = false; for (auto &t : tabs) { if (val.count(t.second.first)) continue; bool ready = true; for (auto &n : t.first) ready &= val.count(n); if (!ready) continue; T v(I.W, 0); for (auto &row : t.second.second) { istringstream z(row); string c; if (!t.first.empty()) z >> c; string b; z >> b; if (b != "1") violation("wrong_result:dump", I.hist() + ": unexpected BLIF row " + row); T e(I.W, 1); for (size_t i = 0; i < t.first.size() && i < c.size(); i++) if (c[i] != '-') e = In::tand(e, c[i] == '1' ? val[t.first[i]] : In::tnot(val[t.first[i]])); v = In::tor(v, e); } val[t.second.first] = v; prog = true; } }
			if (!val.count("f") || val["f"] != fn) violation("wrong_result:dump", I.hist() + ": the BLIF text does not mean the function"); }
		if (w == 2) { // evaluate the factored form
			string t = ref.data; size_t e = t.find('='); if (e == string::npos) violation("wrong_result:dump", I.hist() + ": no factored form in " + t.substr(0, 80)); size_t p = e + 1; function<T()> expr, fac;
			auto sp = [&] { while (p < t.size() && strchr(" \n\t", t[p])) p++; };
			fac = [&]() -> T { sp(); if (p < t.size() && t[p] == '!') { p++; return In::tnot(fac()); } if (p < t.size() && t[p] == '(') { p++; T v = expr(); sp(); if (p < t.size() && t[p] == ')') p++; return v; } string n; while (p < t.size() && isalnum(t[p])) n += t[p++]; if (n == "0" || n == "CONST0") return T(I.W, 0); if (n == "1" || n == "CONST1") return T(I.W, 1); for (int i = 0; i < s; i++) if (n == nm[i]) return I.tvar(i); violation("wrong_result:dump", I.hist() + ": cannot read the factored form " + t.substr(0, 200)); };
			expr = [&]() -> T { T v; bool first = true; while (true) { T x = fac(); sp(); while (p < t.size() && t[p] == '&') { p++; x = In::tand(x, fac()); sp(); } v = first ? x : In::tor(v, x); first = false; sp(); if (p < t.size() && t[p] == '|') { p++; continue; } return v; } };
			T v = expr(); if (v != fn) violation("wrong_result:dump", I.hist() + ": the factored form does not mean the function"); }
		Disk bad; unsigned long fw = I.op->a[2]; bad.r = Rng(fw + 1); if (fw & 1) bad.cap = (long)((fw >> 3) % (ref.data.size() + 1)); if (fw & 2) bad.eioAt = (long)((fw >> 3) % 4); if (fw & 4) bad.shortMax = 1 + (fw >> 3) % 16; if (!(fw & 7)) { I.good(); return; }
		bool ok = dump(bad, fw >> 20 & 1); if (ok && bad.data != ref.data) violation("torn_dump", I.hist() + ": writing reported success but " + to_string(bad.data.size()) + " of " + to_string(ref.data.size()) + " bytes arrived"); if (!ok) RES->storeFail++; I.good(); });
