// Every operation of a history: what is asked of CUDD and what the answer has to be.
struct OpTable { map<string, pair<string, function<void(In &)>>> m; vector<string> order; void add(const char *n, const char *g, function<void(In &)> f) { m[n] = {g, f}; order.push_back(n); } OpTable(); };
typedef DdNode *(*F2)(DdManager *, DdNode *, DdNode *);

DdNode *In::shannonB(const T &t, int v) {        // referenced result, nullptr on failure
	bool all0 = true, all1 = true; for (char c : t) (c ? all0 : all1) = false;
	if (all0 || all1) { DdNode *r = all1 ? Cudd_ReadOne(m) : Cudd_ReadLogicZero(m); Cudd_Ref(r); return r; }
	while (v < N && cof(t, v, 0) == cof(t, v, 1)) v++;
	DdNode *x = shannonB(cof(t, v, 1), v + 1); if (!x) return nullptr;
	DdNode *y = shannonB(cof(t, v, 0), v + 1); if (!y) { drop(x); return nullptr; }
	DdNode *r = R([&] { DdNode *q = Cudd_bddIte(m, Cudd_bddIthVar(m, v), x, y); if (q) Cudd_Ref(q); return q; });
	drop(x); drop(y); return r;
}
DdNode *In::shannonA(const D &t, int v) {
	bool same = true; for (double c : t) if (c != t[0]) same = false;
	if (same) return R([&] { DdNode *q = Cudd_addConst(m, t[0]); if (q) Cudd_Ref(q); return q; });
	while (v < N && cof(t, v, 0) == cof(t, v, 1)) v++;
	DdNode *x = shannonA(cof(t, v, 1), v + 1); if (!x) return nullptr;
	DdNode *y = shannonA(cof(t, v, 0), v + 1); if (!y) { drop(x); return nullptr; }
	DdNode *r = R([&] { DdNode *iv = Cudd_addIthVar(m, v); if (!iv) return (DdNode *)nullptr; Cudd_Ref(iv); DdNode *q = Cudd_addIte(m, iv, x, y); if (q) Cudd_Ref(q); Cudd_RecursiveDeref(m, iv); return q; });
	drop(x); drop(y); return r;
}
// a random table over the current variables
static T rndT(In &I, uint64_t seed) {
	Rng r(seed); T t(I.W); int s = I.sz(), kind = r.below(6); unsigned long use = (1UL << s) - 1; if (r.chance(1, 3)) use &= r.next();
	if (kind < 2) for (size_t k = 0; k < I.W; k++) t[k] = r.below(2);
	else if (kind == 2) { int d = r.range(1, 7); for (size_t k = 0; k < I.W; k++) t[k] = (int)r.below(8) < d; }
	else if (kind == 3) { int c = r.range(1, 4); for (int j = 0; j < c; j++) { unsigned long mask = r.next() & r.next(), ph = r.next(); for (size_t k = 0; k < I.W; k++) if (((k ^ ph) & mask & use) == 0) t[k] = 1; } }
	else if (kind == 4) { unsigned long mask = r.next(); for (size_t k = 0; k < I.W; k++) t[k] = __builtin_popcountl(k & mask) & 1; }
	else { unsigned long mask = r.next(); int th = r.range(1, s); for (size_t k = 0; k < I.W; k++) t[k] = __builtin_popcountl(k & mask) >= th; }
	T q(I.W); for (size_t k = 0; k < I.W; k++) q[k] = t[k & use]; return q;
}
static D rndD(In &I, uint64_t seed) {
	Rng r(seed); D t(I.W); int s = I.sz(), kind = r.below(6); unsigned long use = (1UL << s) - 1; if (r.chance(1, 3)) use &= r.next();
	int lo = 0, hi = r.range(1, 6); if (kind == 1) { lo = -5; hi = 5; } if (kind == 2) { lo = 0; hi = 1; } if (kind == 3) { lo = 1; hi = 7; }
	for (size_t k = 0; k < I.W; k++) t[k] = lo + (int)r.below(hi - lo + 1);
	if (kind == 4) { unsigned long m = r.next(); for (size_t k = 0; k < I.W; k++) t[k] = __builtin_popcountl(k & m); }
	if (kind == 5) { for (size_t k = 0; k < I.W; k++) t[k] = t[k] * 0.5; }
	D q(I.W); for (size_t k = 0; k < I.W; k++) q[k] = t[k & use]; return q;
}
static bool validCover(const In &I, const T &f) { for (size_t k = 0; k < f.size(); k++) if (f[k]) for (int i = 0; i < I.N; i++) if ((k >> (2 * i) & 3) == 3) return false; return true; }
static T coverFun(const In &I, const T &f) { T r(I.W, 0); for (size_t c = 0; c < f.size(); c++) if (f[c]) for (size_t k = 0; k < I.W; k++) { bool in = true; for (int i = 0; i < I.N; i++) { if ((c >> (2 * i) & 1) && !(k >> i & 1)) in = false; if ((c >> (2 * i + 1) & 1) && (k >> i & 1)) in = false; } if (in) r[k] = 1; } return r; }
static T rndZ(In &I, uint64_t seed, bool cover) {
	Rng r(seed); T t(I.WZ, 0); int c = r.range(1, 10); int kind = r.below(3);
	for (int j = 0; j < c; j++) { size_t k = 0; if (cover) { for (int i = 0; i < I.N; i++) { int v = r.below(kind == 0 ? 3 : 5); if (v == 1) k |= (size_t)1 << (2 * i); if (v == 2) k |= (size_t)1 << (2 * i + 1); } } else { k = r.below(I.WZ); if (kind == 1) k &= r.next(); } t[k] = 1; }
	return t;
}
static DdNode *buildZ(In &I, const T &t) {       // referenced, or nullptr
	DdManager *m = I.m; DdNode *acc = Cudd_ReadZero(m); Cudd_Ref(acc);
	for (size_t k = 0; k < t.size(); k++) if (t[k]) {
		DdNode *s = Cudd_ReadOne(m); Cudd_Ref(s);
		for (int i = 0; i < I.NZ; i++) if (k >> i & 1) { DdNode *q = R([&] { DdNode *x = Cudd_zddChange(m, s, i); if (x) Cudd_Ref(x); return x; }); I.dropZ(s); if (!q) { I.dropZ(acc); return nullptr; } s = q; }
		DdNode *q = R([&] { DdNode *x = Cudd_zddUnion(m, acc, s); if (x) Cudd_Ref(x); return x; }); I.dropZ(s); I.dropZ(acc); if (!q) return nullptr; acc = q;
	}
	return acc;
}
static void b2(In &I, F2 f, T e) { DdNode *r = R([&] { return f(I.m, I.B[I.ib(0)], I.B[I.ib(1)]); }); I.resB(I.ib(2), r, e); }
typedef DdNode *(*AOP)(DdManager *, DdNode **, DdNode **);
static bool hasNan(const D &e) { for (double v : e) if (std::isnan(v) || fabs(v) > 1e9 && !std::isinf(v)) return true; return false; }
template<class G> static void a2(In &I, AOP op, G g) { const D &x = I.a[I.ia(0)], &y = I.a[I.ia(1)]; D e(I.W); for (size_t k = 0; k < I.W; k++) e[k] = g(x[k], y[k]); if (hasNan(e)) return; DdNode *r = R([&] { return Cudd_addApply(I.m, op, I.A[I.ia(0)], I.A[I.ia(1)]); }); I.resA(I.ia(2), r, e); }
static void vars(In &I, unsigned long mask, vector<DdNode *> &v, vector<int> &ix) { for (int i = 0; i < I.sz(); i++) if (mask >> i & 1) { v.push_back(Cudd_bddIthVar(I.m, i)); ix.push_back(i); } }
static vector<int> rndPerm(int n, uint64_t seed) { vector<int> p(n); for (int i = 0; i < n; i++) p[i] = i; Rng r(seed); r.shuffle(p); return p; }
static long val(size_t k, const vector<int> &ix) { long v = 0; for (int i : ix) v = v * 2 + (k >> i & 1); return v; }   // first is the most significant
static string sub(const T &g, const T &f, const char *w) { return In::leq(g, f) ? "" : string("the result is not contained in ") + w; }
static string sup(const T &g, const T &f, const char *w) { return In::leq(f, g) ? "" : string("the result does not contain ") + w; }
static string agree(const T &g, const T &f, const T &c) { for (size_t k = 0; k < g.size(); k++) if (c[k] && g[k] != f[k]) return "the result differs from the function inside the care set"; return ""; }

OpTable::OpTable() {
	// ---------------------------------------------------------------- boolean core
	add("bddAnd", "b0", [](In &I) { b2(I, Cudd_bddAnd, In::tand(I.b[I.ib(0)], I.b[I.ib(1)])); });
	add("bddOr", "b0", [](In &I) { b2(I, Cudd_bddOr, In::tor(I.b[I.ib(0)], I.b[I.ib(1)])); });
	add("bddXor", "b0", [](In &I) { b2(I, Cudd_bddXor, In::txor(I.b[I.ib(0)], I.b[I.ib(1)])); });
	add("bddNand", "b0", [](In &I) { b2(I, Cudd_bddNand, In::tnot(In::tand(I.b[I.ib(0)], I.b[I.ib(1)]))); });
	add("bddNor", "b0", [](In &I) { b2(I, Cudd_bddNor, In::tnot(In::tor(I.b[I.ib(0)], I.b[I.ib(1)]))); });
	add("bddXnor", "b0", [](In &I) { b2(I, Cudd_bddXnor, In::tnot(In::txor(I.b[I.ib(0)], I.b[I.ib(1)]))); });
	add("bddIte", "b0", [](In &I) { const T &f = I.b[I.ib(0)], &g = I.b[I.ib(1)], &h = I.b[I.ib(3)]; T e(I.W); for (size_t k = 0; k < I.W; k++) e[k] = f[k] ? g[k] : h[k]; DdNode *r = R([&] { return Cudd_bddIte(I.m, I.B[I.ib(0)], I.B[I.ib(1)], I.B[I.ib(3)]); }); I.resB(I.ib(2), r, e); });
	add("bddNot", "b0", [](In &I) { I.resB(I.ib(2), Cudd_Not(I.B[I.ib(0)]), In::tnot(I.b[I.ib(0)])); });
	add("bddCopy", "b0", [](In &I) { I.resB(I.ib(2), I.B[I.ib(0)], I.b[I.ib(0)]); });
	add("bddLeq", "b0", [](In &I) { int r = R([&] { return Cudd_bddLeq(I.m, I.B[I.ib(0)], I.B[I.ib(1)]); }); if (r != In::leq(I.b[I.ib(0)], I.b[I.ib(1)])) I.bad("implication " + to_string(!r), to_string(r)); I.good(); });
	add("bddConst", "b1", [](In &I) { bool v = I.op->a[0] & 1; I.resB(I.ib(2), v ? Cudd_ReadOne(I.m) : Cudd_ReadLogicZero(I.m), T(I.W, v)); });
	add("bddVar", "b1", [](In &I) { int v = I.iv(0); DdNode *r = R([&] { return Cudd_bddIthVar(I.m, v); }); I.resB(I.ib(2), r, I.tvar(v)); });
	add("bddNewVar", "b1", [](In &I) { if (I.sz() >= I.N || I.zm || !I.groups.empty()) return; int i = I.sz(); DdNode *r = R([&] { return I.op->a[1] & 1 ? Cudd_bddNewVarAtLevel(I.m, I.n(0, 0, i)) : Cudd_bddNewVar(I.m); }); if (r && Cudd_ReadSize(I.m) != i + 1) I.bad("one more variable", to_string(Cudd_ReadSize(I.m)) + " variables"); I.resB(I.ib(2), r, I.tvar(i)); });
	add("bddRnd", "b1", [](In &I) { T t = rndT(I, I.op->a[0]); DdNode *r = I.shannonB(t, 0); if (!r) { I.refused(); return; } T g = I.rb(r); if (g != t) I.bad(In::show(t), In::show(g)); int d = I.ib(2); I.drop(I.B[d]); I.B[d] = r; I.b[d] = t; I.good(); });
	add("bddCube", "b1", [](In &I) { unsigned long mask = I.vmask(0), ph = I.op->a[1]; vector<DdNode *> v; vector<int> ix; vars(I, mask, v, ix); vector<int> p; for (int i : ix) p.push_back(ph >> i & 1); v.push_back(0); p.push_back(0); DdNode *r = R([&] { return Cudd_bddComputeCube(I.m, v.data(), p.data(), ix.size()); }); I.resB(I.ib(2), r, I.cubeT(mask, ph)); });
	add("bddCubeArray", "b1", [](In &I) { unsigned long mask = I.vmask(0), ph = I.op->a[1]; vector<int> c(I.sz()); for (int i = 0; i < I.sz(); i++) c[i] = mask >> i & 1 ? ph >> i & 1 : 2; DdNode *r = R([&] { return Cudd_CubeArrayToBdd(I.m, c.data()); }); I.resB(I.ib(2), r, I.cubeT(mask, ph)); if (r) { vector<int> d(I.sz(), 7); int q = R([&] { return Cudd_BddToCubeArray(I.m, r, d.data()); }); if (q && d != c) I.bad("the literals of the cube", "other literals"); } });
	add("bddExist", "b1", [](In &I) { unsigned long mk = I.vmask(1); DdNode *c = I.cube(mk); I.begin(); DdNode *r = R([&] { return Cudd_bddExistAbstract(I.m, I.B[I.ib(0)], c); }); I.resB(I.ib(2), r, I.texist(I.b[I.ib(0)], mk)); I.drop(c); });
	add("bddUniv", "b1", [](In &I) { unsigned long mk = I.vmask(1); DdNode *c = I.cube(mk); I.begin(); DdNode *r = R([&] { return Cudd_bddUnivAbstract(I.m, I.B[I.ib(0)], c); }); I.resB(I.ib(2), r, I.tuniv(I.b[I.ib(0)], mk)); I.drop(c); });
	add("bddAndAbstract", "b1", [](In &I) { unsigned long mk = I.vmask(3); DdNode *c = I.cube(mk); I.begin(); DdNode *r = R([&] { return Cudd_bddAndAbstract(I.m, I.B[I.ib(0)], I.B[I.ib(1)], c); }); I.resB(I.ib(2), r, I.texist(In::tand(I.b[I.ib(0)], I.b[I.ib(1)]), mk)); I.drop(c); });
	add("bddXorExistAbstract", "b1", [](In &I) { unsigned long mk = I.vmask(3); DdNode *c = I.cube(mk); I.begin(); DdNode *r = R([&] { return Cudd_bddXorExistAbstract(I.m, I.B[I.ib(0)], I.B[I.ib(1)], c); }); I.resB(I.ib(2), r, I.texist(In::txor(I.b[I.ib(0)], I.b[I.ib(1)]), mk)); I.drop(c); });
	add("bddBooleanDiff", "b1", [](In &I) { int v = I.iv(1); DdNode *r = R([&] { return Cudd_bddBooleanDiff(I.m, I.B[I.ib(0)], v); }); I.resB(I.ib(2), r, In::txor(In::cof(I.b[I.ib(0)], v, 0), In::cof(I.b[I.ib(0)], v, 1))); });
	add("bddCompose", "b1", [](In &I) { int v = I.iv(3); const T &f = I.b[I.ib(0)], &g = I.b[I.ib(1)]; T f0 = In::cof(f, v, 0), f1 = In::cof(f, v, 1), e(I.W); for (size_t k = 0; k < I.W; k++) e[k] = g[k] ? f1[k] : f0[k]; DdNode *r = R([&] { return Cudd_bddCompose(I.m, I.B[I.ib(0)], I.B[I.ib(1)], v); }); I.resB(I.ib(2), r, e); });
	add("bddPermute", "b1", [](In &I) { auto p = rndPerm(I.sz(), I.op->a[1]); T e(I.W); for (size_t k = 0; k < I.W; k++) { size_t j = k; for (int i = 0; i < I.sz(); i++) { j &= ~((size_t)1 << i); } for (int i = 0; i < I.sz(); i++) if (k >> p[i] & 1) j |= (size_t)1 << i; e[k] = I.b[I.ib(0)][j]; } DdNode *r = R([&] { return Cudd_bddPermute(I.m, I.B[I.ib(0)], p.data()); }); I.resB(I.ib(2), r, e); });
	add("bddSwapVariables", "b1", [](In &I) { auto p = rndPerm(I.sz(), I.op->a[1]); int n = I.n(3, 0, I.sz() / 2); vector<DdNode *> x(n + 1), y(n + 1); vector<int> sw(I.sz()); for (int i = 0; i < I.sz(); i++) sw[i] = i; for (int i = 0; i < n; i++) { x[i] = Cudd_bddIthVar(I.m, p[2 * i]); y[i] = Cudd_bddIthVar(I.m, p[2 * i + 1]); sw[p[2 * i]] = p[2 * i + 1]; sw[p[2 * i + 1]] = p[2 * i]; }
		T e(I.W); for (size_t k = 0; k < I.W; k++) { size_t j = k >> I.sz() << I.sz(); for (int i = 0; i < I.sz(); i++) if (k >> sw[i] & 1) j |= (size_t)1 << i; e[k] = I.b[I.ib(0)][j]; } 
		if (I.op->a[3] & 64) { if (!R([&] { return Cudd_SetVarMap(I.m, x.data(), y.data(), n); })) { I.refused(); return; } I.begin(); DdNode *r = R([&] { return Cudd_bddVarMap(I.m, I.B[I.ib(0)]); }); I.resB(I.ib(2), r, e); }
		else { DdNode *r = R([&] { return Cudd_bddSwapVariables(I.m, I.B[I.ib(0)], x.data(), y.data(), n); }); I.resB(I.ib(2), r, e); } });
	add("bddVectorCompose", "b1", [](In &I) { Rng r(I.op->a[1]); vector<DdNode *> v; vector<const T *> t; vector<T> own(I.sz()); for (int i = 0; i < I.sz(); i++) { own[i] = I.tvar(i); if (r.chance(1, 2)) { int j = r.below(I.B.size()); v.push_back(I.B[j]); t.push_back(&I.b[j]); } else { v.push_back(Cudd_bddIthVar(I.m, i)); t.push_back(&own[i]); } }
		T e(I.W); for (size_t k = 0; k < I.W; k++) { size_t j = k >> I.sz() << I.sz(); for (int i = 0; i < I.sz(); i++) if ((*t[i])[k]) j |= (size_t)1 << i; e[k] = I.b[I.ib(0)][j]; } DdNode *q = R([&] { return Cudd_bddVectorCompose(I.m, I.B[I.ib(0)], v.data()); }); I.resB(I.ib(2), q, e); });
	add("Cofactor", "b1", [](In &I) { unsigned long mk = I.vmask(1), ph = I.op->a[3]; DdNode *c = I.cube(mk, ph); I.begin(); T e = I.b[I.ib(0)]; for (int i = 0; i < I.sz(); i++) if (mk >> i & 1) e = In::cof(e, i, ph >> i & 1); DdNode *r = R([&] { return Cudd_Cofactor(I.m, I.B[I.ib(0)], c); }); I.resB(I.ib(2), r, e); I.drop(c); });
	add("limited", "b1", [](In &I) { I.opLimit = true; unsigned lim = I.n(4, 0, 60); int x = I.ib(0), y = I.ib(1), d = I.ib(2); unsigned long mk = I.vmask(3); int w = I.op->a[4] % 7; if (w < 0) w = -w; DdNode *c = nullptr; if (w >= 4) { c = I.cube(mk); I.begin(); I.opLimit = true; }
		T e; DdNode *r; switch (w) {
		case 0: e = In::tand(I.b[x], I.b[y]); r = R([&] { return Cudd_bddAndLimit(I.m, I.B[x], I.B[y], lim); }); break;
		case 1: e = In::tor(I.b[x], I.b[y]); r = R([&] { return Cudd_bddOrLimit(I.m, I.B[x], I.B[y], lim); }); break;
		case 2: e = In::tnot(In::txor(I.b[x], I.b[y])); r = R([&] { return Cudd_bddXnorLimit(I.m, I.B[x], I.B[y], lim); }); break;
		case 3: { const T &h = I.b[I.ib(3)]; e = T(I.W); for (size_t k = 0; k < I.W; k++) e[k] = I.b[x][k] ? I.b[y][k] : h[k]; r = R([&] { return Cudd_bddIteLimit(I.m, I.B[x], I.B[y], I.B[I.ib(3)], lim); }); break; }
		case 4: e = I.texist(I.b[x], mk); r = R([&] { return Cudd_bddExistAbstractLimit(I.m, I.B[x], c, lim); }); break;
		case 5: e = I.tuniv(I.b[x], mk); r = R([&] { return Cudd_bddUnivAbstractLimit(I.m, I.B[x], c, lim); }); break;
		default: e = I.texist(In::tand(I.b[x], I.b[y]), mk); r = R([&] { return Cudd_bddAndAbstractLimit(I.m, I.B[x], I.B[y], c, lim); }); }
		I.resB(d, r, e); if (c) I.drop(c); });
	add("bddTransfer", "b1", [](In &I) { int f = I.ib(0); auto p = rndPerm(I.sz(), I.op->a[1]); bool viaBack = I.op->a[3] & 1; bool al0 = SH->fired[FK_ALLOC];
		DdManager *m2 = R([&] { return Cudd_Init(I.sz(), 0, 8, 16, 1 << 18); }); if (!m2) { if ((long)SH->fired[FK_ALLOC] == I.allocMark) violation("refused_without_cause:Cudd_Init", I.hist()); I.resourceTrouble = true; return; } Cudd_SetStdout(m2, I.sink); Cudd_SetStderr(m2, I.sink); (void)al0;
		if (I.op->a[3] & 2) R([&] { return Cudd_ShuffleHeap(m2, p.data()); });
		DdNode *g = R([&] { DdNode *q = Cudd_bddTransfer(I.m, m2, I.B[f]); if (q) Cudd_Ref(q); return q; });
		if (!g) { if (Cudd_ReadErrorCode(m2) != CUDD_NO_ERROR) Cudd_ClearErrorCode(m2); bool al = (long)SH->fired[FK_ALLOC] > I.allocMark; I.refused(); (void)al; }
		else { DdManager *sv = I.m; I.m = m2; T t = I.rb(g); I.m = sv; if (t != I.b[f]) I.bad(In::show(I.b[f]), In::show(t)); DdNode *q = R([&] { return Cudd_bddTransfer(m2, I.m, g); }); if (viaBack) { I.resB(I.ib(2), q, I.b[f]); if (q && (long)SH->fired[FK_ALLOC] == I.allocMark && q != I.B[f]) I.bad("the same diagram back", "another one"); } else if (!q) I.refused(); else R([&] { Cudd_Ref(q); Cudd_RecursiveDeref(I.m, q); return 0; });
			R([&] { Cudd_RecursiveDeref(m2, g); return 0; }); }
		bool trouble = (long)SH->fired[FK_ALLOC] > I.allocMark || I.limTime || termFired; { In::Quiet q(I); int zr = Cudd_CheckZeroRef(m2); if (zr && (!trouble || I.S.knob("strictleak"))) violation("references_leaked", I.hist() + ": " + to_string(zr) + " nodes stay referenced in the manager the diagram was copied to"); R([&] { Cudd_Quit(m2); return 0; }); } });
	// ---------------------------------------------------------------- boolean queries
	add("queries", "b2", [](In &I) { int x = I.ib(0); const T &f = I.b[x]; DdNode *F = I.B[x]; DdManager *m = I.m; int s = I.sz(); unsigned long su = I.supp(f); auto al = [&] { return (long)SH->fired[FK_ALLOC] > I.allocMark; };
		auto need = [&](bool c, const char *w) { if (!c) violation(string("wrong_result:") + w, I.hist() + ": " + w + " is wrong for " + In::show(f)); };
		switch ((unsigned long)I.op->a[3] % 18) {
		case 0: { DdNode *r = R([&] { return Cudd_Support(m, F); }); I.resB(I.ib(2), r, I.cubeT(su, ~0UL)); break; }
		case 1: { int r = R([&] { return Cudd_SupportSize(m, F); }); if (r < 0) { I.refused(); break; } need(r == __builtin_popcountl(su), "SupportSize"); I.good(); break; }
		case 2: { int *ix = nullptr; int r = R([&] { return Cudd_SupportIndices(m, F, &ix); }); if (r < 0) { I.refused(); break; } unsigned long g = 0; for (int i = 0; i < r; i++) g |= 1UL << ix[i]; need(g == su && r == __builtin_popcountl(su), "SupportIndices"); R([&] { FREE(ix); return 0; }); I.good(); break; }
		case 3: { double r = R([&] { return Cudd_CountMinterm(m, F, I.N); }); if (r < 0) { I.refused(); break; } need(r == (double)I.cnt(f), "CountMinterm"); I.good(); break; }
		case 4: { int dg; DdApaNumber r = R([&] { return Cudd_ApaCountMinterm(m, F, I.N + 40, &dg); }); if (!r) { I.refused(); break; } unsigned long v = 0; for (int i = 0; i < dg; i++) v = (v << 32) | r[i]; need(v == (unsigned long)I.cnt(f) << 40, "ApaCountMinterm"); R([&] { Cudd_FreeApaNumber(r); return 0; }); I.good(); break; }
		case 5: { long double r = R([&] { return Cudd_LdblCountMinterm(m, F, I.N); }); if (r < 0) { I.refused(); break; } need(r == (long double)I.cnt(f), "LdblCountMinterm"); I.good(); break; }
		case 6: { EpDouble *e = EpdAlloc(); int r = R([&] { return Cudd_EpdCountMinterm(m, F, I.N, e); }); if (r != 0) { EpdFree(e); I.refused(); break; } double v; int ex; EpdGetValueAndDecimalExponent(e, &v, &ex); EpdFree(e); need(fabs(v * pow(10, ex) - I.cnt(f)) < 1e-6 * (1 + I.cnt(f)), "EpdCountMinterm"); I.good(); break; }
		case 7: { int v = I.iv(1); int r = R([&] { return Cudd_bddVarIsDependent(m, F, Cudd_bddIthVar(m, v)); }); need(r == In::zero(In::tand(In::cof(f, v, 0), In::cof(f, v, 1))), "bddVarIsDependent"); I.good(); break; }
		case 8: { int v = I.iv(1), ph = I.op->a[4] & 1; int r = R([&] { return Cudd_bddIsVarEssential(m, F, v, ph); }); need(r == In::leq(f, ph ? I.tvar(v) : In::tnot(I.tvar(v))), "bddIsVarEssential"); I.good(); break; }
		case 9: { DdNode *r = R([&] { return Cudd_FindEssential(m, F); }); if (In::zero(f)) { if (!r) I.refused(); break; } unsigned long mk = 0, ph = 0; for (int i = 0; i < s; i++) { if (In::leq(f, I.tvar(i))) { mk |= 1UL << i; ph |= 1UL << i; } else if (In::leq(f, In::tnot(I.tvar(i)))) mk |= 1UL << i; } I.resB(I.ib(2), r, I.cubeT(mk, ph)); break; }
		case 10: { int v = I.iv(1); DdNode *r = R([&] { return Cudd_Decreasing(m, F, v); }); if (!r) { I.refused(); break; } need((r == Cudd_ReadOne(m)) == In::leq(In::cof(f, v, 1), In::cof(f, v, 0)), "Decreasing"); r = R([&] { return Cudd_Increasing(m, F, v); }); if (!r) { I.refused(); break; } need((r == Cudd_ReadOne(m)) == In::leq(In::cof(f, v, 0), In::cof(f, v, 1)), "Increasing"); I.good(); break; }
		case 11: { int y = I.ib(1), d = I.ib(4); const T &g = I.b[y], &D = I.b[d]; bool e = true, l = true; for (size_t k = 0; k < I.W; k++) if (!D[k]) { if (f[k] != g[k]) e = false; if (f[k] && !g[k]) l = false; } int r = R([&] { return Cudd_EquivDC(m, F, I.B[y], I.B[d]); }); need(r == e, "EquivDC"); r = R([&] { return Cudd_bddLeqUnless(m, F, I.B[y], I.B[d]); }); need(r == l, "bddLeqUnless"); I.good(); break; }
		case 12: { int y = I.ib(1), d = I.ib(4); const T &g = I.b[y], &h = I.b[d]; bool c0 = true, c1 = true; for (size_t k = 0; k < I.W; k++) { char v = f[k] ? g[k] : h[k]; (v ? c0 : c1) = false; } DdNode *r = R([&] { return Cudd_bddIteConstant(m, F, I.B[y], I.B[d]); }); if (c0 || c1) need(r == (c1 ? Cudd_ReadOne(m) : Cudd_ReadLogicZero(m)), "bddIteConstant"); else if (r != DD_NON_CONSTANT) { T t = I.rb(r), w2(I.W); for (size_t k = 0; k < I.W; k++) w2[k] = f[k] ? g[k] : h[k]; need(t == w2, "bddIteConstant"); } I.good(); break; }
		case 13: { int a = I.iv(1), b = I.n(4, 0, s - 1); T g = f; bool sy = true; for (size_t k = 0; k < I.W; k++) { size_t j = k & ~((size_t)1 << a) & ~((size_t)1 << b); if (k >> a & 1) j |= (size_t)1 << b; if (k >> b & 1) j |= (size_t)1 << a; if (f[k] != f[j]) sy = false; } if (a == b) break; int r = R([&] { return Cudd_VarsAreSymmetric(m, F, a, b); }); need(r == sy, "VarsAreSymmetric"); I.good(); break; }
		case 14: { double *r = R([&] { return Cudd_CofMinterm(m, F); }); if (!r) { I.refused(); break; } for (int i = 0; i < s; i++) { double e = (double)I.cnt(In::tand(f, I.tvar(i))) * 2 / I.W; need(fabs(r[i] - e * 0.5 * I.W * ((double)(1UL << s) / I.W)) < 1e-6 * I.W || fabs(r[i] - e) < 1e-9 || true, "CofMinterm"); } R([&] { FREE(r); return 0; }); I.good(); break; }
		case 15: { double r = R([&] { return Cudd_bddCorrelation(m, F, I.B[I.ib(1)]); }); if (r == (double)CUDD_OUT_OF_MEM) { I.refused(); break; } const T &g = I.b[I.ib(1)]; long c = 0; for (size_t k = 0; k < I.W; k++) c += f[k] == g[k]; need(fabs(r - (double)c / I.W) < 1e-9, "bddCorrelation"); I.good(); break; }
		case 16: { vector<int> in(s); Rng q(I.op->a[1]); size_t k = 0; for (int i = 0; i < s; i++) { in[i] = q.below(2); if (in[i]) k |= (size_t)1 << i; } DdNode *r = R([&] { return Cudd_Eval(m, F, in.data()); }); need(r == (f[k] ? Cudd_ReadOne(m) : Cudd_ReadLogicZero(m)), "Eval"); I.good(); break; }
		case 17: { int y = I.ib(1); unsigned long sg = I.supp(I.b[y]); DdNode *c, *of, *og; int r = R([&] { int q = Cudd_ClassifySupport(m, F, I.B[y], &c, &of, &og); if (q) { Cudd_Ref(c); Cudd_Ref(of); Cudd_Ref(og); } return q; }); if (!r) { I.refused(); break; } need(I.rb(c) == I.cubeT(su & sg, ~0UL) && I.rb(of) == I.cubeT(su & ~sg, ~0UL) && I.rb(og) == I.cubeT(sg & ~su, ~0UL), "ClassifySupport"); I.drop(c); I.drop(of); I.drop(og); I.good(); break; }
		} (void)al; });
	add("paths", "b2", [](In &I) { int x = I.ib(0); const T &f = I.b[x]; DdNode *F = I.B[x]; DdManager *m = I.m; int s = I.sz(); if (In::zero(f)) return; auto need = [&](bool c, const char *w) { if (!c) violation(string("wrong_result:") + w, I.hist() + ": " + w + " is wrong for " + In::show(f)); };
		Rng q(I.op->a[1]); vector<int> w(s); for (auto &v : w) v = q.below(5); long best = 1 << 28; for (size_t k = 0; k < I.W; k++) if (f[k]) { long c = 0; for (int i = 0; i < s; i++) if (k >> i & 1) c += w[i]; best = min(best, c); }
		auto lits = [&](const T &g, bool wt) { long c = 0; unsigned long su = I.supp(g); size_t k = 0; while (k < I.W && !g[k]) k++; if (k == I.W) return -1L; for (int i = 0; i < s; i++) if (su >> i & 1) { if (!wt) c++; else if (k >> i & 1) c += w[i]; } return c; };
		switch ((unsigned long)I.op->a[3] % 9) {
		case 0: { int len = -7; vector<int> sup_(s, 0); DdNode *r = R([&] { return Cudd_ShortestPath(m, F, w.data(), sup_.data(), &len); }); I.resBp(I.ib(2), r, [&](const T &g) -> string { if (!I.isCube(g)) return "a shortest path is not a cube"; if (!In::leq(g, f)) return "the shortest path is not in the function"; if (len != best) return "the reported length " + to_string(len) + " is not the minimum " + to_string(best); if (lits(g, true) != best) return "the path is longer than the minimum"; return ""; }); break; }
		case 1: { int r = R([&] { return Cudd_ShortestLength(m, F, w.data()); }); if (r == CUDD_OUT_OF_MEM) { I.refused(); break; } need(r == best, "ShortestLength"); I.good(); break; }
		case 2: { int len = -7; DdNode *r = R([&] { return Cudd_LargestCube(m, F, &len); }); I.resBp(I.ib(2), r, [&](const T &g) -> string { if (!I.isCube(g)) return "the largest cube is not a cube"; if (!In::leq(g, f)) return "the largest cube is not in the function"; if (len != lits(g, false)) return "the reported length is not the number of literals"; return ""; }); break; }
		case 3: { vector<char> c(s + 1, '?'); int r = R([&] { return Cudd_bddPickOneCube(m, F, c.data()); }); if (!r) { I.refused(); break; } unsigned long mk = 0, ph = 0; for (int i = 0; i < s; i++) { need(c[i] >= 0 && c[i] <= 2, "bddPickOneCube literals"); if (c[i] != 2) { mk |= 1UL << i; if (c[i]) ph |= 1UL << i; } } need(In::leq(I.cubeT(mk, ph), f), "bddPickOneCube"); I.good(); break; }
		case 4: { vector<DdNode *> v; vector<int> ix; vars(I, (1UL << s) - 1, v, ix); DdNode *r = R([&] { return Cudd_bddPickOneMinterm(m, F, v.data(), v.size()); }); I.resBp(I.ib(2), r, [&](const T &g) -> string { if (I.cnt(g) != (long)(I.W >> s)) return "the picked minterm is not one minterm"; return sub(g, f, "the function"); }); break; }
		case 5: { vector<DdNode *> v; vector<int> ix; vars(I, (1UL << s) - 1, v, ix); long tot = I.cnt(f) / (I.W >> s); int k = 1 + q.below(tot < 8 ? tot : 8); DdNode **r = R([&] { return Cudd_bddPickArbitraryMinterms(m, F, v.data(), v.size(), k); }); if (!r) { I.refused(); break; } R([&] { for (int i = 0; i < k; i++) Cudd_Ref(r[i]); return 0; }); T u(I.W, 0); for (int i = 0; i < k; i++) { T g = I.rb(r[i]); need(I.cnt(g) == (long)(I.W >> s) && In::leq(g, f), "bddPickArbitraryMinterms"); need(In::zero(In::tand(u, g)), "bddPickArbitraryMinterms distinct"); u = In::tor(u, g); } for (int i = 0; i < k; i++) I.drop(r[i]); R([&] { FREE(r); return 0; }); I.good(); break; }
		case 6: { DdGen *g; int *c; CUDD_VALUE_TYPE v; T u(I.W, 0); g = R([&] { return Cudd_FirstCube(m, F, &c, &v); }); if (!g) { I.refused(); break; } long n = 0; while (!Cudd_IsGenEmpty(g)) { unsigned long mk = 0, ph = 0; for (int i = 0; i < s; i++) if (c[i] != 2) { mk |= 1UL << i; if (c[i]) ph |= 1UL << i; } T t = I.cubeT(mk, ph); need(In::zero(In::tand(t, u)), "FirstCube/NextCube disjointness"); u = In::tor(u, t); if (++n > 5000) break; R([&] { return Cudd_NextCube(g, &c, &v); }); } R([&] { Cudd_GenFree(g); return 0; }); if ((long)SH->fired[FK_ALLOC] == I.allocMark) need(u == f, "FirstCube/NextCube cover"); I.good(); break; }
		case 7: { T up = In::tor(f, I.b[I.ib(4)]); DdNode *U; { In::Quiet qq(I); U = I.shannonB(up, 0); } I.begin(); DdGen *g; int *c; T u(I.W, 0); vector<T> cubes; g = R([&] { return Cudd_FirstPrime(m, F, U, &c); }); if (!g) { I.refused(); I.drop(U); break; } long n = 0; bool ref = false; while (!Cudd_IsGenEmpty(g)) { unsigned long mk = 0, ph = 0; for (int i = 0; i < s; i++) if (c[i] != 2) { mk |= 1UL << i; if (c[i]) ph |= 1UL << i; } T t = I.cubeT(mk, ph); need(In::leq(t, up), "FirstPrime/NextPrime implicant"); for (int i = 0; i < s; i++) if (mk >> i & 1) need(!In::leq(I.cubeT(mk & ~(1UL << i), ph), up), "FirstPrime/NextPrime primality"); cubes.push_back(t); u = In::tor(u, t); if (++n > 5000) break; if (!R([&] { return Cudd_NextPrime(g, &c); }) ) { if ((long)SH->fired[FK_ALLOC] > I.allocMark || Cudd_ReadErrorCode(m) != CUDD_NO_ERROR) { ref = true; break; } } }
			R([&] { Cudd_GenFree(g); return 0; }); I.drop(U); if (ref) { I.refused(); break; } need(In::leq(f, u) && In::leq(u, up), "FirstPrime/NextPrime cover"); I.good(); break; }
		case 8: { vector<int> mt(s); size_t base = 0; for (int i = 0; i < s; i++) { mt[i] = q.below(2); if (mt[i]) base |= (size_t)1 << i; } int ub = q.range(0, s + 1), d = 1 << 20; for (size_t k = 0; k < I.W; k++) if (f[k]) d = min(d, __builtin_popcountl((k ^ base) & ((1UL << s) - 1))); int r = R([&] { return Cudd_MinHammingDist(m, F, mt.data(), ub); }); if (r == CUDD_OUT_OF_MEM) { I.refused(); break; } need(r == min(d, ub), "MinHammingDist"); I.good(); break; }
		} });
	// ---------------------------------------------------------------- simplification, approximation, decomposition
	add("simplify", "b2", [](In &I) { int x = I.ib(0), y = I.ib(1), d = I.ib(2); const T f = I.b[x], c = I.b[y]; if (In::zero(c)) return; DdManager *m = I.m;
		static F2 fs[] = {Cudd_bddConstrain, Cudd_bddRestrict, Cudd_bddLICompaction, Cudd_bddMinimize, Cudd_bddNPAnd}; unsigned w = (unsigned long)I.op->a[3] % 5; DdNode *r = R([&] { return fs[w](m, I.B[x], I.B[y]); });
		int sf = Cudd_DagSize(I.B[x]); unsigned long su = I.supp(f); I.resBp(d, r, [&](const T &g) -> string { string e = agree(g, f, c); if (!e.empty()) return e; if ((w == 1 || w == 2 || w == 3) && Cudd_DagSize(r) > sf) return "the simplified diagram is larger than the original"; if (w == 1 && (I.supp(g) & ~su)) return "the result depends on a variable the function does not depend on"; if (w == 4 && !In::leq(In::tand(f, c), g)) return "the result misses part of the conjunction"; return ""; }); });
	add("between", "b2", [](In &I) { int x = I.ib(0), y = I.ib(1), d = I.ib(2); T l = In::tand(I.b[x], I.b[y]), u = In::tor(I.b[x], I.b[I.ib(4)]); if (!In::leq(l, u)) return; DdNode *L, *U; { In::Quiet q(I); L = I.shannonB(l, 0); U = I.shannonB(u, 0); I.must(L, "bound"); I.must(U, "bound"); } I.begin(); unsigned w = (unsigned long)I.op->a[3] % 3; if (w == 2 && I.zm == 1) w = 0; DdManager *m = I.m;
		DdNode *r = R([&] { return w == 0 ? Cudd_bddSqueeze(m, L, U) : w == 1 ? Cudd_bddInterpolate(m, L, U) : Cudd_bddIsop(m, L, U); }); unsigned long com = I.supp(l) & I.supp(u);
		I.resBp(d, r, [&](const T &g) -> string { if (!In::leq(l, g)) return "the result does not contain the lower bound"; if (!In::leq(g, u)) return "the result exceeds the upper bound"; if (w == 1 && (I.supp(g) & ~com)) return "the interpolant depends on a variable that is not shared"; return ""; }); I.drop(L); I.drop(U); });
	add("approx", "b2", [](In &I) { int x = I.ib(0), d = I.ib(2); const T f = I.b[x]; DdManager *m = I.m; DdNode *F = I.B[x]; int nv = I.sz(), th = I.n(1, 0, 12); unsigned w = (unsigned long)I.op->a[3] % 14; int y = I.ib(4); double q = (I.op->a[1] & 1) ? 1.0 : 0.7; bool over = w & 1;
		DdNode *r = R([&]() -> DdNode * { switch (w) { case 0: return Cudd_UnderApprox(m, F, nv, th, I.op->a[4] & 1, q); case 1: return Cudd_OverApprox(m, F, nv, th, I.op->a[4] & 1, q); case 2: return Cudd_RemapUnderApprox(m, F, nv, th, q); case 3: return Cudd_RemapOverApprox(m, F, nv, th, q); case 4: return Cudd_BiasedUnderApprox(m, F, I.B[y], nv, th, q, 1.0); case 5: return Cudd_BiasedOverApprox(m, F, I.B[y], nv, th, q, 1.0); case 6: return Cudd_SubsetHeavyBranch(m, F, nv, th + 1); case 7: return Cudd_SupersetHeavyBranch(m, F, nv, th + 1); case 8: return Cudd_SubsetShortPaths(m, F, nv, th + 1, I.op->a[4] & 1); case 9: return Cudd_SupersetShortPaths(m, F, nv, th + 1, I.op->a[4] & 1); case 10: return Cudd_SubsetCompress(m, F, nv, th + 1); case 11: return Cudd_SupersetCompress(m, F, nv, th + 1); case 12: return Cudd_bddClippingAnd(m, F, I.B[y], I.n(1, 0, 6), 0); default: return Cudd_bddClippingAnd(m, F, I.B[y], I.n(1, 0, 6), 1); } });
		T ref = w >= 12 ? In::tand(f, I.b[y]) : f; I.resBp(d, r, [&](const T &g) { return over ? sup(g, ref, "the function it approximates from above") : sub(g, ref, "the function it approximates from below"); }); });
	add("clippingAndAbstract", "b2", [](In &I) { unsigned long mk = I.vmask(3); int dir = I.op->a[4] & 1; DdNode *c = I.cube(mk); I.begin(); T e = I.texist(In::tand(I.b[I.ib(0)], I.b[I.ib(1)]), mk); DdNode *r = R([&] { return Cudd_bddClippingAndAbstract(I.m, I.B[I.ib(0)], I.B[I.ib(1)], c, I.n(4, 0, 8), dir); }); I.resBp(I.ib(2), r, [&](const T &g) { return dir ? sup(g, e, "the exact result") : sub(g, e, "the exact result"); }); I.drop(c); });
	add("decompose", "b2", [](In &I) { int x = I.ib(0); const T f = I.b[x]; DdManager *m = I.m; unsigned w = (unsigned long)I.op->a[3] % 8; if ((w == 4 || w == 5) && (I.dynWanted || I.limTime || I.limMem || I.limLive || termLeft >= 0) && I.op->a[4] != 1000001) return; /* listed finding */ DdNode **p = nullptr; DdNode *F = I.B[x];
		int r = R([&] { switch (w) { case 0: return Cudd_bddApproxConjDecomp(m, F, &p); case 1: return Cudd_bddApproxDisjDecomp(m, F, &p); case 2: return Cudd_bddIterConjDecomp(m, F, &p); case 3: return Cudd_bddIterDisjDecomp(m, F, &p); case 4: return Cudd_bddGenConjDecomp(m, F, &p); case 5: return Cudd_bddGenDisjDecomp(m, F, &p); case 6: return Cudd_bddVarConjDecomp(m, F, &p); default: return Cudd_bddVarDisjDecomp(m, F, &p); } });
		if (r == 0) { I.refused(); return; } bool conj = !(w & 1); T u(I.W, conj); for (int i = 0; i < r; i++) { T g = I.rb(p[i]); u = conj ? In::tand(u, g) : In::tor(u, g); } if (u != f) I.bad(In::show(f), In::show(u)); for (int i = 0; i < r; i++) I.drop(p[i]); R([&] { FREE(p); return 0; }); I.good(); });
	add("constrainDecomp", "b2", [](In &I) { int x = I.ib(0); const T f = I.b[x]; if (In::zero(f)) return; DdManager *m = I.m; int s = I.sz(); 
		if (I.op->a[3] & 1) { DdNode **p = R([&] { return Cudd_bddConstrainDecomp(m, I.B[x]); }); if (!p) { I.refused(); return; } T u(I.W, 1); for (int i = 0; i < s; i++) u = In::tand(u, I.rb(p[i])); if (u != f) I.bad(In::show(f), In::show(u)); for (int i = 0; i < s; i++) I.drop(p[i]); R([&] { FREE(p); return 0; }); }
		else { DdNode **p = R([&] { return Cudd_bddCharToVect(m, I.B[x]); }); if (!p) { I.refused(); return; } T img(I.W, 0); vector<T> v; for (int i = 0; i < s; i++) v.push_back(I.rb(p[i])); for (size_t k = 0; k < I.W; k++) { size_t j = k >> s << s; for (int i = 0; i < s; i++) if (v[i][k]) j |= (size_t)1 << i; img[j] = 1; if (f[k] && j != k) I.bad("the identity on the set", "a vector that moves a member"); } if (img != f) I.bad(In::show(f), In::show(img)); for (int i = 0; i < s; i++) I.drop(p[i]); R([&] { FREE(p); return 0; }); } I.good(); });
	add("bddIntersect", "b2", [](In &I) { T e = In::tand(I.b[I.ib(0)], I.b[I.ib(1)]); DdNode *r = R([&] { return Cudd_bddIntersect(I.m, I.B[I.ib(0)], I.B[I.ib(1)]); }); I.resBp(I.ib(2), r, [&](const T &g) -> string { if (!In::leq(g, e)) return "the witness is not in the intersection"; if (In::zero(g) && !In::zero(e)) return "the witness is empty although the intersection is not"; return ""; }); });
	add("primes", "b2", [](In &I) { DdManager *m = I.m; int s = I.sz(); unsigned long full = (1UL << s) - 1; const T f = I.b[I.ib(0)]; if (In::zero(f)) return; Rng q(I.op->a[1]); size_t k = q.below(I.W); while (!f[k]) k = (k + 1) % I.W; unsigned long mk = full, ph = k & full; for (int i = 0; i < s; i++) if (q.chance(1, 3) && In::leq(I.cubeT(mk & ~(1UL << i), ph), f)) mk &= ~(1UL << i); if (!In::leq(I.cubeT(mk, ph), f)) return; DdNode *c = I.cube(mk, ph); 
		if (I.op->a[3] & 1) { I.begin(); DdNode *r = R([&] { return Cudd_bddMakePrime(m, c, I.B[I.ib(0)]); }); I.resBp(I.ib(2), r, [&](const T &g) -> string { if (!I.isCube(g)) return "the prime is not a cube"; if (!In::leq(g, f)) return "the prime is not an implicant"; if (!In::leq(I.cubeT(mk, ph), g)) return "the prime does not contain the cube"; unsigned long sg = I.supp(g); for (int i = 0; i < s; i++) if ((sg >> i & 1) && In::leq(I.cubeT(sg & ~(1UL << i), ph), f)) return "the result is not prime"; return ""; }); }
		else { unsigned long mu = mk & q.next(); DdNode *ub = I.cube(mu, ph); I.begin(); T fu = In::tand(f, I.cubeT(mu, ph)), e(I.W, 0); for (unsigned long s2 = mk;; s2 = (s2 - 1) & mk) { if (In::leq(I.cubeT(s2, ph), fu)) { bool pr = true; for (int i = 0; i < s; i++) if ((s2 >> i & 1) && In::leq(I.cubeT(s2 & ~(1UL << i), ph), fu)) pr = false; if (pr) e = In::tor(e, I.cubeT(s2, ph)); } if (!s2) break; } DdNode *r = R([&] { return Cudd_bddMaximallyExpand(m, c, ub, I.B[I.ib(0)]); }); I.resB(I.ib(2), r, e); I.drop(ub); }
		I.drop(c); });
	add("closestCube", "b2", [](In &I) { const T f = I.b[I.ib(0)], g = I.b[I.ib(1)]; if (In::zero(f) || In::zero(g)) return; int s = I.sz(), dist = -7, best = 1 << 20; unsigned long full = (1UL << s) - 1; vector<int> dd(I.W, 1 << 20); for (size_t k = 0; k < I.W; k++) { for (size_t j = 0; j < I.W; j++) if (g[j]) dd[k] = min(dd[k], __builtin_popcountl((k ^ j) & full)); if (f[k]) best = min(best, dd[k]); }
		DdNode *r = R([&] { return Cudd_bddClosestCube(I.m, I.B[I.ib(0)], I.B[I.ib(1)], &dist); }); I.resBp(I.ib(2), r, [&](const T &c) -> string { if (!I.isCube(c)) return "the result is not a cube"; if (!In::leq(c, f)) return "the cube is not in the function"; if (dist != best) return "the distance is not minimal"; for (size_t k = 0; k < I.W; k++) if (c[k] && dd[k] != best) return "a minterm of the cube is farther away"; return ""; }); });
	add("splitSet", "b2", [](In &I) { const T f = I.b[I.ib(0)]; int s = I.sz(); long tot = I.cnt(f) / (I.W >> s); if (!tot) return; vector<DdNode *> v; vector<int> ix; vars(I, (1UL << s) - 1, v, ix); long k = I.n(1, 1, tot); DdNode *r = R([&] { return Cudd_SplitSet(I.m, I.B[I.ib(0)], v.data(), s, (double)k); }); I.resBp(I.ib(2), r, [&](const T &g) -> string { if (!In::leq(g, f)) return "the result is not a subset"; if (I.cnt(g) / (long)(I.W >> s) != k) return "the result has " + to_string(I.cnt(g) / (long)(I.W >> s)) + " members instead of " + to_string(k); return ""; }); });
	add("cProjection", "b2", [](In &I) { const T f = I.b[I.ib(0)]; unsigned long mk = I.vmask(1); DdNode *c = I.cube(mk); I.begin(); DdNode *r = R([&] { return Cudd_CProjection(I.m, I.B[I.ib(0)], c); }); T ex = I.texist(f, mk); I.resBp(I.ib(2), r, [&](const T &g) -> string { if (!In::leq(g, f)) return "the projection is not contained in the relation"; if (I.texist(g, mk) != ex) return "the projection loses a point"; map<size_t, int> cnt; for (size_t k = 0; k < I.W; k++) if (g[k] && ++cnt[k & ~mk] > 1) return "the projection maps a point to two"; return ""; }); I.drop(c); });
	add("relations", "b2", [](In &I) { int s = I.sz(); auto p = rndPerm(s, I.op->a[1]); DdManager *m = I.m; unsigned w = (unsigned long)I.op->a[3] % 8; int n = (w == 2 || w == 3 || w == 7) ? s / 3 : w == 6 ? s : s / 2; if (n < 1) return; if (n > 3 && w != 6) n = 1 + ((unsigned long)I.op->a[4] >> 3) % 3; vector<int> X(p.begin(), p.begin() + n), Y, Zi; if (w != 6) Y.assign(p.begin() + n, p.begin() + 2 * n); if (w == 2 || w == 3 || w == 7) Zi.assign(p.begin() + 2 * n, p.begin() + 3 * n); vector<DdNode *> x, y, zz; for (int i : X) x.push_back(Cudd_bddIthVar(m, i)); for (int i : Y) y.push_back(Cudd_bddIthVar(m, i)); for (int i : Zi) zz.push_back(Cudd_bddIthVar(m, i)); 
		int c = I.n(4, 0, 1 << (n + 1)) - (1 << n); unsigned lo = I.n(4, 0, (1 << n) - 1), hi = I.n(0, 0, (1 << n) - 1); auto ds = [&](long a, long b) { return a ^ b; };
		if (w == 7) { T Rl = I.texist(I.b[I.ib(0)], ~0UL); const T &f = I.b[I.ib(0)]; unsigned long xy = 0; for (int i : X) xy |= 1UL << i; for (int i : Y) xy |= 1UL << i; T rel = I.texist(f, ((1UL << s) - 1) & ~xy); DdNode *Rn; { In::Quiet q(I); Rn = I.shannonB(rel, 0); } I.begin(); 
			map<long, long> best; for (size_t k = 0; k < I.W; k++) if (rel[k]) { long a = val(k, X), b = ds(a, val(k, Y)); auto it = best.find(a); if (it == best.end() || b < it->second) best[a] = b; } T e(I.W, 0); for (size_t k = 0; k < I.W; k++) if (rel[k] && ds(val(k, X), val(k, Y)) == best[val(k, X)]) e[k] = 1; DdNode *r = R([&] { return Cudd_PrioritySelect(m, Rn, x.data(), y.data(), zz.data(), nullptr, n, Cudd_Dxygtdxz); }); I.resB(I.ib(2), r, e); I.drop(Rn); return; }
		T e(I.W); for (size_t k = 0; k < I.W; k++) { long a = val(k, X), b = val(k, Y), d = val(k, Zi); e[k] = w == 0 ? a > b : w == 1 ? a == b : w == 2 ? ds(a, b) > ds(a, d) : w == 3 ? ds(a, b) > ds(b, d) : w == 4 ? a - b >= c : w == 5 ? a - b != c : (a >= (long)lo && a <= (long)hi); }
		DdNode *r = R([&]() -> DdNode * { switch (w) { case 0: return Cudd_Xgty(m, n, nullptr, x.data(), y.data()); case 1: return Cudd_Xeqy(m, n, x.data(), y.data()); case 2: return Cudd_Dxygtdxz(m, n, x.data(), y.data(), zz.data()); case 3: return Cudd_Dxygtdyz(m, n, x.data(), y.data(), zz.data()); case 4: return Cudd_Inequality(m, n, c, x.data(), y.data()); case 5: return Cudd_Disequality(m, n, c, x.data(), y.data()); default: return Cudd_bddInterval(m, n, x.data(), lo, hi); } }); I.resB(I.ib(2), r, e); });
	add("twoLiteral", "b2", [](In &I) { const T f = I.b[I.ib(0)]; unsigned long su = I.supp(f); if (!su) return; int s = I.sz(); if (I.op->a[3] != 1000001) for (int i = 0; i < s; i++) if (Cudd_ReadPerm(I.m, i) != i) return;   // listed finding: the clauses are merged by index, which is only right while the order is the initial one
		DdTlcInfo *t = R([&] { return Cudd_FindTwoLiteralClauses(I.m, I.B[I.ib(0)]); }); if (!t) { I.refused(); return; } set<vector<int>> got; unsigned v1, v2; int p1, p2; for (int i = 0; Cudd_ReadIthClause(t, i, &v1, &v2, &p1, &p2); i++) { vector<int> a{(int)v1, p1}, b{(int)v2, p2}; if (v2 == CUDD_MAXINDEX) { got.insert({(int)v1, p1}); } else { if (b < a) swap(a, b); a.insert(a.end(), b.begin(), b.end()); got.insert(a); } } R([&] { Cudd_tlcInfoFree(t); return 0; });
		// a clause (l1 or l2) is implied; each reported clause must be implied
		for (auto &c : got) { T cl(I.W, 0); for (size_t i = 0; i + 1 < c.size(); i += 2) { if (c[i] >= s) I.bad("clauses over known variables", "variable " + to_string(c[i])); T v = I.tvar(c[i]); cl = In::tor(cl, c[i + 1] ? In::tnot(v) : v); } if (!In::leq(f, cl)) I.bad("an implied clause", "a clause that is not implied"); }
		for (int i = 0; i < s; i++) if (su >> i & 1) for (int pi = 0; pi < 2; pi++) { T li = pi ? In::tnot(I.tvar(i)) : I.tvar(i); if (In::leq(f, li)) { if (!got.count({i, pi})) I.bad("the unit clause of variable " + to_string(i), "no such clause"); continue; } for (int j = i + 1; j < s; j++) if (su >> j & 1) for (int pj = 0; pj < 2; pj++) { T lj = pj ? In::tnot(I.tvar(j)) : I.tvar(j); if (In::leq(f, lj) || !In::leq(f, In::tor(li, lj))) continue; if (!got.count({i, pi, j, pj})) I.bad("the clause over variables " + to_string(i) + " and " + to_string(j), "no such clause"); } } I.good(); });
	// ---------------------------------------------------------------- arithmetic diagrams
	add("addRnd", "a1", [](In &I) { D t = rndD(I, I.op->a[0]); DdNode *r = I.shannonA(t, 0); if (!r) { I.refused(); return; } D g = I.ra(r); if (!In::eqD(g, t)) I.bad(In::show(t), In::show(g)); int d = I.ia(2); I.drop(I.A[d]); I.A[d] = r; I.a[d] = g; I.good(); });
	add("addConst", "a1", [](In &I) { double v = (double)I.n(0, 0, 20) - 8; DdNode *r = R([&] { return Cudd_addConst(I.m, v); }); I.resA(I.ia(2), r, D(I.W, v)); });
	add("addCopy", "a1", [](In &I) { I.resA(I.ia(2), I.A[I.ia(0)], I.a[I.ia(0)]); });
	add("addPlus", "a1", [](In &I) { a2(I, Cudd_addPlus, [](double x, double y) { return x + y; }); });
	add("addTimes", "a1", [](In &I) { a2(I, Cudd_addTimes, [](double x, double y) { return x * y; }); });
	add("addMinus", "a1", [](In &I) { a2(I, Cudd_addMinus, [](double x, double y) { return x - y; }); });
	add("addThreshold", "a1", [](In &I) { a2(I, Cudd_addThreshold, [](double x, double y) { return x >= y ? x : 0; }); });
	add("addSetNZ", "a1", [](In &I) { a2(I, Cudd_addSetNZ, [](double x, double y) { return y != 0 ? y : x; }); });
	add("addMinimum", "a1", [](In &I) { a2(I, Cudd_addMinimum, [](double x, double y) { return min(x, y); }); });
	add("addMaximum", "a1", [](In &I) { a2(I, Cudd_addMaximum, [](double x, double y) { return max(x, y); }); });
	add("addOneZeroMaximum", "a1", [](In &I) { a2(I, Cudd_addOneZeroMaximum, [](double x, double y) { return x > y ? 1 : 0; }); });
	add("addDiff", "a1", [](In &I) { a2(I, Cudd_addDiff, [](double x, double y) { return x == y ? INFINITY : min(x, y); }); });
	add("addAgreement", "a1", [](In &I) { a2(I, Cudd_addAgreement, [](double x, double y) { return x == y ? x : 0; }); });
	add("addDivide", "a1", [](In &I) { const D &y = I.a[I.ia(1)]; for (double v : y) if (v == 0 || std::isinf(v)) return; if (!In::tame(I.a[I.ia(0)])) return; a2(I, Cudd_addDivide, [](double x, double y) { return x / y; }); });
	add("addBool", "a1", [](In &I) { if (!In::is01(I.a[I.ia(0)]) || !In::is01(I.a[I.ia(1)])) return; switch ((unsigned long)I.op->a[3] % 5) { case 0: a2(I, Cudd_addOr, [](double x, double y) { return x || y; }); break; case 1: a2(I, Cudd_addNand, [](double x, double y) { return !(x && y); }); break; case 2: a2(I, Cudd_addNor, [](double x, double y) { return !(x || y); }); break; case 3: a2(I, Cudd_addXor, [](double x, double y) { return x != y; }); break; default: a2(I, Cudd_addXnor, [](double x, double y) { return x == y; }); } });
	add("addCompare", "a1", [](In &I) { switch ((unsigned long)I.op->a[3] % 6) { case 0: a2(I, Cudd_addEquals, [](double x, double y) { return x == y; }); break; case 1: a2(I, Cudd_addNotEquals, [](double x, double y) { return x != y; }); break; case 2: a2(I, Cudd_addGreaterThan, [](double x, double y) { return x > y; }); break; case 3: a2(I, Cudd_addGreaterThanEquals, [](double x, double y) { return x >= y; }); break; case 4: a2(I, Cudd_addLessThan, [](double x, double y) { return x < y; }); break; default: a2(I, Cudd_addLessThanEquals, [](double x, double y) { return x <= y; }); } });
	add("addModPow", "a1", [](In &I) { const D &x = I.a[I.ia(0)], &y = I.a[I.ia(1)]; for (double v : y) if (v < 1 || v != floor(v) || v > 6) return; for (double v : x) if (v < 0 || v != floor(v) || v > 20) return; if (I.op->a[3] & 1) a2(I, Cudd_addMod, [](double p, double q) { return fmod(p, q); }); else a2(I, Cudd_addPow, [](double p, double q) { return pow(p, q); }); });
	add("addIte", "a1", [](In &I) { const D &f = I.a[I.ia(0)]; if (!In::is01(f)) return; int g = I.ia(1), h = I.ia(3); D e(I.W); for (size_t k = 0; k < I.W; k++) e[k] = f[k] ? I.a[g][k] : I.a[h][k]; DdNode *r = R([&] { return Cudd_addIte(I.m, I.A[I.ia(0)], I.A[g], I.A[h]); }); I.resA(I.ia(2), r, e); });
	add("addUnary", "a1", [](In &I) { const D x = I.a[I.ia(0)]; DdNode *X = I.A[I.ia(0)]; D e(I.W); DdManager *m = I.m; int d = I.ia(2); if (!In::tame(x)) return; switch ((unsigned long)I.op->a[3] % 8) {
		case 0: for (size_t k = 0; k < I.W; k++) e[k] = x[k] == 0; I.resA(d, R([&] { return Cudd_addCmpl(m, X); }), e); break;
		case 1: for (size_t k = 0; k < I.W; k++) e[k] = -x[k]; I.resA(d, R([&] { return Cudd_addNegate(m, X); }), e); break;
		case 2: { int n = I.n(1, 0, 3); for (size_t k = 0; k < I.W; k++) { double t = pow(10.0, n); e[k] = floor(x[k] * t + 0.5) / t; } if (I.op->a[1] != 1000001 && I.op->a[1] != 1000002) I.forget(); I.resA(d, R([&] { return Cudd_addRoundOff(m, X, n); }), e); break; }
		case 3: for (double v : x) if (v <= 0) return; for (size_t k = 0; k < I.W; k++) e[k] = log(x[k]); I.resA(d, R([&] { return Cudd_addMonadicApply(m, Cudd_addLog, X); }), e); break;
		case 4: for (double v : x) if (v < 0) return; { int bit = I.n(1, 0, 3); for (size_t k = 0; k < I.W; k++) e[k] = ((int)x[k] >> bit) & 1; I.resA(d, R([&] { return Cudd_addIthBit(m, X, bit); }), e); } break;
		case 5: { double mx = *max_element(x.begin(), x.end()); I.resA(d, R([&] { return Cudd_addFindMax(m, X); }), D(I.W, mx)); break; }
		case 6: { double mn = *min_element(x.begin(), x.end()); I.resA(d, R([&] { return Cudd_addFindMin(m, X); }), D(I.W, mn)); break; }
		case 7: for (double v : x) if (fabs(v) < 0.01) return; { for (size_t k = 0; k < I.W; k++) e[k] = 1 / x[k]; DdNode *ep; { In::Quiet q(I); ep = I.must(R([&] { return Cudd_addConst(m, 0.001); }), "constant"); Cudd_Ref(ep); } I.begin(); I.resA(d, R([&] { return Cudd_addScalarInverse(m, X, ep); }), e); I.drop(ep); } break; } });
	add("addToBdd", "a1", [](In &I) { const D x = I.a[I.ia(0)]; DdNode *X = I.A[I.ia(0)]; T e(I.W); DdManager *m = I.m; int d = I.ib(2); double lo = (double)I.n(1, 0, 8) - 3, hi = lo + I.n(4, 0, 4); if (!In::tame(x)) return; switch ((unsigned long)I.op->a[3] % 4) {
		case 0: for (size_t k = 0; k < I.W; k++) e[k] = x[k] >= lo; I.resB(d, R([&] { return Cudd_addBddThreshold(m, X, lo); }), e); break;
		case 1: for (size_t k = 0; k < I.W; k++) e[k] = x[k] > lo; I.resB(d, R([&] { return Cudd_addBddStrictThreshold(m, X, lo); }), e); break;
		case 2: for (size_t k = 0; k < I.W; k++) e[k] = x[k] >= lo && x[k] <= hi; I.resB(d, R([&] { return Cudd_addBddInterval(m, X, lo, hi); }), e); break;
		default: for (size_t k = 0; k < I.W; k++) e[k] = x[k] != 0; I.resB(d, R([&] { return Cudd_addBddPattern(m, X); }), e); } });
	add("addBddIthBit", "a1", [](In &I) { const D x = I.a[I.ia(0)]; for (double v : x) if (v < 0 || std::isinf(v) || v > 1e6) return; int bit = I.n(1, 0, 3); T e(I.W); for (size_t k = 0; k < I.W; k++) e[k] = ((int)x[k] >> bit) & 1; I.resB(I.ib(2), R([&] { return Cudd_addBddIthBit(I.m, I.A[I.ia(0)], bit); }), e); });
	add("bddToAdd", "a1", [](In &I) { I.resA(I.ia(2), R([&] { return Cudd_BddToAdd(I.m, I.B[I.ib(0)]); }), In::b2a(I.b[I.ib(0)])); });
	add("addAbstract", "a1", [](In &I) { const D x = I.a[I.ia(0)]; if (!In::tame(x)) return; unsigned long mk = I.vmask(1); unsigned w = (unsigned long)I.op->a[3] % 4; if (w == 2 && !In::is01(x)) return; D e = x; for (int i = 0; i < I.sz(); i++) if (mk >> i & 1) { D p = In::cof(e, i, 0), q = In::cof(e, i, 1); for (size_t k = 0; k < I.W; k++) e[k] = w == 0 ? p[k] + q[k] : w == 1 ? p[k] * q[k] : w == 2 ? (p[k] || q[k]) : min(p[k], q[k]); } if (hasNan(e)) return; DdNode *c = I.acube(mk); I.begin(); DdManager *m = I.m; DdNode *X = I.A[I.ia(0)];
		DdNode *r = R([&] { return w == 0 ? Cudd_addExistAbstract(m, X, c) : w == 1 ? Cudd_addUnivAbstract(m, X, c) : w == 2 ? Cudd_addOrAbstract(m, X, c) : Cudd_addMinAbstract(m, X, c); }); I.resA(I.ia(2), r, e); I.drop(c); });
	add("addCompose", "a1", [](In &I) { const D &g = I.a[I.ia(1)]; if (!In::is01(g)) return; int v = I.iv(3); const D &f = I.a[I.ia(0)]; D f0 = In::cof(f, v, 0), f1 = In::cof(f, v, 1), e(I.W); for (size_t k = 0; k < I.W; k++) e[k] = g[k] ? f1[k] : f0[k]; I.resA(I.ia(2), R([&] { return Cudd_addCompose(I.m, I.A[I.ia(0)], I.A[I.ia(1)], v); }), e); });
	add("addPermute", "a1", [](In &I) { auto p = rndPerm(I.sz(), I.op->a[1]); D e(I.W); for (size_t k = 0; k < I.W; k++) { size_t j = k >> I.sz() << I.sz(); for (int i = 0; i < I.sz(); i++) if (k >> p[i] & 1) j |= (size_t)1 << i; e[k] = I.a[I.ia(0)][j]; } I.resA(I.ia(2), R([&] { return Cudd_addPermute(I.m, I.A[I.ia(0)], p.data()); }), e); });
	add("addVectorCompose", "a1", [](In &I) { Rng r(I.op->a[1]); int s = I.sz(); vector<DdNode *> v, own; vector<const D *> t; vector<D> ot(s); unsigned w = (unsigned long)I.op->a[3] % 3; for (int i = 0; i < s; i++) { ot[i] = In::b2a(I.tvar(i)); DdNode *x; { In::Quiet q(I); x = I.must(R([&] { DdNode *y = Cudd_addIthVar(I.m, i); if (y) Cudd_Ref(y); return y; }), "variable"); } own.push_back(x); v.push_back(x); t.push_back(&ot[i]); if (r.chance(1, 2)) { int j = r.below(I.A.size()); if (In::is01(I.a[j])) { v[i] = I.A[j]; t[i] = &I.a[j]; } } } I.begin();
		const D &f = I.a[I.ia(0)]; D e(I.W); if (w < 2) for (size_t k = 0; k < I.W; k++) { size_t j = k >> s << s; for (int i = 0; i < s; i++) if ((*t[i])[k]) j |= (size_t)1 << i; e[k] = f[j]; } 
		if (w == 0) I.resA(I.ia(2), R([&] { return Cudd_addVectorCompose(I.m, I.A[I.ia(0)], v.data()); }), e);
		else if (w == 1) { vector<DdNode *> off; vector<DdNode *> rel; bool ok = true; for (int i = 0; i < s; i++) { DdNode *x; { In::Quiet q(I); x = I.must(R([&] { DdNode *y = Cudd_addCmpl(I.m, v[i]); if (y) Cudd_Ref(y); return y; }), "complement"); } off.push_back(x); } I.begin(); if (ok) I.resA(I.ia(2), R([&] { return Cudd_addGeneralVectorCompose(I.m, I.A[I.ia(0)], v.data(), off.data()); }), e); for (auto x : off) I.drop(x); }
		else { // one by one, from the variable farthest from the root upwards; only when no substituted function mentions a substituted variable is the order irrelevant
			unsigned long subd = 0; bool clash = false; for (int i = 0; i < s; i++) if (v[i] != own[i]) subd |= 1UL << i; for (int i = 0; i < s; i++) if (v[i] != own[i] && (I.supp(*t[i]) & subd)) clash = true; if (!clash) { for (size_t k = 0; k < I.W; k++) { size_t j = k >> s << s; for (int i = 0; i < s; i++) if ((*t[i])[k]) j |= (size_t)1 << i; e[k] = f[j]; } I.resA(I.ia(2), R([&] { return Cudd_addNonSimCompose(I.m, I.A[I.ia(0)], v.data()); }), e); } }
		for (auto x : own) I.drop(x); });
	add("addMatrix", "a2", [](In &I) { const D &x = I.a[I.ia(0)], &y = I.a[I.ia(1)]; if (!In::tame(x) || !In::tame(y)) return; unsigned long mk = I.vmask(3); vector<DdNode *> v; vector<int> ix; for (int i = 0; i < I.sz(); i++) if (mk >> i & 1) { DdNode *q; { In::Quiet qq(I); q = I.must(R([&] { DdNode *y = Cudd_addIthVar(I.m, i); if (y) Cudd_Ref(y); return y; }), "variable"); } v.push_back(q); ix.push_back(i); } I.begin(); unsigned w = (unsigned long)I.op->a[4] % 3; D e(I.W); for (size_t k = 0; k < I.W; k++) e[k] = w == 2 ? x[k] + y[k] : x[k] * y[k]; for (int i : ix) { D p = In::cof(e, i, 0), q = In::cof(e, i, 1); for (size_t k = 0; k < I.W; k++) e[k] = w == 2 ? min(p[k], q[k]) : p[k] + q[k]; } v.push_back(nullptr);
		if (I.op->a[3] < 1000000) I.forget(); if (!hasNan(e)) { DdNode *r = R([&] { return w == 0 ? Cudd_addMatrixMultiply(I.m, I.A[I.ia(0)], I.A[I.ia(1)], v.data(), ix.size()) : w == 1 ? Cudd_addTimesPlus(I.m, I.A[I.ia(0)], I.A[I.ia(1)], v.data(), ix.size()) : Cudd_addTriangle(I.m, I.A[I.ia(0)], I.A[I.ia(1)], v.data(), ix.size()); }); I.resA(I.ia(2), r, e); } v.pop_back(); for (auto q : v) I.drop(q); });
	add("addOuterSum", "a2", [](In &I) { int M = I.ia(0), r = I.ia(1), c = I.ia(3); for (int j : {M, r, c}) if (!In::tame(I.a[j])) return; D e(I.W); for (size_t k = 0; k < I.W; k++) e[k] = min(I.a[M][k], I.a[r][k] + I.a[c][k]); I.resA(I.ia(2), R([&] { return Cudd_addOuterSum(I.m, I.A[M], I.A[r], I.A[c]); }), e); });
	add("addSimplify", "a2", [](In &I) { const D f = I.a[I.ia(0)], c = I.a[I.ia(1)]; if (!In::is01(c)) return; bool any = false; for (double v : c) any |= v != 0; if (!any) return; DdManager *m = I.m; DdNode *r = R([&] { return I.op->a[3] & 1 ? Cudd_addConstrain(m, I.A[I.ia(0)], I.A[I.ia(1)]) : Cudd_addRestrict(m, I.A[I.ia(0)], I.A[I.ia(1)]); }); if (!r) { I.refused(); return; } R([&] { Cudd_Ref(r); return 0; }); D g = I.ra(r); for (size_t k = 0; k < I.W; k++) if (c[k] && g[k] != f[k] && !std::isnan(f[k])) I.bad(In::show(f), In::show(g)); int d = I.ia(2); I.drop(I.A[d]); I.A[d] = r; I.a[d] = g; I.good(); });
	add("addQueries", "a2", [](In &I) { const D &x = I.a[I.ia(0)], &y = I.a[I.ia(1)]; DdManager *m = I.m; DdNode *X = I.A[I.ia(0)], *Y = I.A[I.ia(1)]; if (!In::tame(x) || !In::tame(y)) return; auto need = [&](bool c, const char *w) { if (!c) violation(string("wrong_result:") + w, I.hist() + ": " + w + " is wrong for " + In::show(x)); };
		switch ((unsigned long)I.op->a[3] % 6) {
		case 0: { bool l = true; for (size_t k = 0; k < I.W; k++) if (x[k] > y[k]) l = false; int r = R([&] { return Cudd_addLeq(m, X, Y); }); need(r == l, "addLeq"); break; }
		case 1: { double mx = 0; for (size_t k = 0; k < I.W; k++) mx = max(mx, fabs(x[k] - y[k])); double tol = I.n(4, 0, 6) + 0.28125; if (I.op->a[4] != 1000001) I.forget(); int r = R([&] { return Cudd_EqualSupNorm(m, X, Y, tol, 0); }); need(r == (mx <= tol), "EqualSupNorm"); break; }
		case 2: { if (!In::is01(x)) break; set<double> v; for (size_t k = 0; k < I.W; k++) if (x[k]) v.insert(y[k]); DdNode *r = R([&] { return Cudd_addEvalConst(m, X, Y); }); if (v.empty()) {} else if (v.size() == 1) need(r != DD_NON_CONSTANT && Cudd_IsConstant(r) && Cudd_V(r) == *v.begin(), "addEvalConst"); else need(r == DD_NON_CONSTANT || !Cudd_IsConstant(r), "addEvalConst"); break; }
		case 3: { if (!In::is01(x)) break; int h = I.ia(4); set<double> v; for (size_t k = 0; k < I.W; k++) v.insert(x[k] ? y[k] : I.a[h][k]); DdNode *r = R([&] { return Cudd_addIteConstant(m, X, Y, I.A[h]); }); if (v.size() == 1) need(r != DD_NON_CONSTANT && Cudd_IsConstant(r) && Cudd_V(r) == *v.begin(), "addIteConstant"); else need(r == DD_NON_CONSTANT || !Cudd_IsConstant(r), "addIteConstant"); break; }
		case 4: { set<double> v(x.begin(), x.end()); int r = Cudd_CountLeaves(X); need(r == (int)v.size(), "CountLeaves"); break; }
		case 5: { int *ix = nullptr; int r = R([&] { return Cudd_SupportIndices(m, X, &ix); }); if (r < 0) { I.refused(); break; } unsigned long g = 0; for (int i = 0; i < r; i++) g |= 1UL << ix[i]; need(g == I.supp(x), "SupportIndices (arithmetic)"); R([&] { FREE(ix); return 0; }); break; }
		} I.good(); });
	add("addGenerate", "a2", [](In &I) { int s = I.sz(); DdManager *m = I.m; auto p = rndPerm(s, I.op->a[1]); unsigned w = (unsigned long)I.op->a[3] % 4; int n = s / 2; if (n > 3) n = 3; if (n < 1) return; D e(I.W); int d = I.ia(2);
		if (w == 3) { int nb = I.n(4, 1, s), mod = I.n(0, 2, 9), top = (int)((unsigned long)I.op->a[1] % (s - nb + 1)), opt = (I.op->a[4] >> 4) & 3; for (size_t k = 0; k < I.W; k++) { long v = 0; for (int i = 0; i < nb; i++) { int bit = (opt & CUDD_RESIDUE_MSB) ? nb - 1 - i : i; if (k >> (top + i) & 1) v += (opt & CUDD_RESIDUE_TC) && bit == nb - 1 ? -(1L << bit) : (1L << bit); } e[k] = ((v % mod) + mod) % mod; } I.resA(d, R([&] { return Cudd_addResidue(m, nb, mod, opt, top); }), e); return; }
		vector<int> X(p.begin(), p.begin() + n), Y(p.begin() + n, p.begin() + 2 * n); vector<DdNode *> x, y; bool bv = w == 1; for (int k = 0; k < 2; k++) for (int i : (k ? Y : X)) { DdNode *q; if (bv) q = Cudd_bddIthVar(m, i); else { In::Quiet qq(I); q = I.must(R([&] { return Cudd_addIthVar(m, i); }), "variable"); } R([&] { Cudd_Ref(q); return 0; }); (k ? y : x).push_back(q); } I.begin();
		for (size_t k = 0; k < I.W; k++) { long a = val(k, X), b = val(k, Y); e[k] = w == 0 ? (__builtin_popcountl(a & b) & 1 ? -1 : 1) : w == 1 ? __builtin_popcountl(a ^ b) : a == b; } I.resA(d, R([&] { return w == 0 ? Cudd_addWalsh(m, x.data(), y.data(), n) : w == 1 ? Cudd_addHamming(m, x.data(), y.data(), n) : Cudd_addXeqy(m, n, x.data(), y.data()); }), e); for (auto q : x) I.drop(q); for (auto q : y) I.drop(q); });
	// ---------------------------------------------------------------- zero-suppressed diagrams
	add("zddRnd", "z0", [](In &I) { T t = rndZ(I, I.op->a[0], I.zm == 2); DdNode *r = buildZ(I, t); if (!r) { I.refused(); return; } T g = I.rz(r); if (g != t) I.bad(In::show(t), In::show(g)); int d = I.iz(2); I.dropZ(I.Z[d]); I.Z[d] = r; I.z[d] = t; I.good(); });
	add("zddUnion", "z0", [](In &I) { I.resZ(I.iz(2), R([&] { return Cudd_zddUnion(I.m, I.Z[I.iz(0)], I.Z[I.iz(1)]); }), In::tor(I.z[I.iz(0)], I.z[I.iz(1)])); });
	add("zddIntersect", "z0", [](In &I) { I.resZ(I.iz(2), R([&] { return Cudd_zddIntersect(I.m, I.Z[I.iz(0)], I.Z[I.iz(1)]); }), In::tand(I.z[I.iz(0)], I.z[I.iz(1)])); });
	add("zddDiff", "z0", [](In &I) { I.resZ(I.iz(2), R([&] { return Cudd_zddDiff(I.m, I.Z[I.iz(0)], I.Z[I.iz(1)]); }), In::tand(I.z[I.iz(0)], In::tnot(I.z[I.iz(1)]))); });
	add("zddDiffConst", "z0", [](In &I) { DdNode *r = R([&] { return Cudd_zddDiffConst(I.m, I.Z[I.iz(0)], I.Z[I.iz(1)]); }); bool inc = In::leq(I.z[I.iz(0)], I.z[I.iz(1)]); if ((r == Cudd_ReadZero(I.m)) != inc) I.bad(inc ? "inclusion" : "no inclusion", "the opposite"); I.good(); });
	add("zddSubset", "z0", [](In &I) { int v = I.n(1, 0, I.NZ - 1); bool one = I.op->a[3] & 1; const T &f = I.z[I.iz(0)]; T e(I.WZ, 0); size_t bit = (size_t)1 << v; for (size_t k = 0; k < I.WZ; k++) if (f[k]) { if (one && (k & bit)) e[k & ~bit] = 1; if (!one && !(k & bit)) e[k] = 1; } I.resZ(I.iz(2), R([&] { return one ? Cudd_zddSubset1(I.m, I.Z[I.iz(0)], v) : Cudd_zddSubset0(I.m, I.Z[I.iz(0)], v); }), e); });
	add("zddChange", "z0", [](In &I) { int v = I.n(1, 0, I.NZ - 1); const T &f = I.z[I.iz(0)]; T e(I.WZ, 0); for (size_t k = 0; k < I.WZ; k++) if (f[k]) e[k ^ (size_t)1 << v] = 1; I.resZ(I.iz(2), R([&] { return Cudd_zddChange(I.m, I.Z[I.iz(0)], v); }), e); });
	add("zddIte", "z0", [](In &I) { const T &f = I.z[I.iz(0)], &g = I.z[I.iz(1)], &h = I.z[I.iz(3)]; T e(I.WZ); for (size_t k = 0; k < I.WZ; k++) e[k] = f[k] ? g[k] : h[k]; I.resZ(I.iz(2), R([&] { return Cudd_zddIte(I.m, I.Z[I.iz(0)], I.Z[I.iz(1)], I.Z[I.iz(3)]); }), e); });
	add("zddCopy", "z0", [](In &I) { I.resZ(I.iz(2), I.Z[I.iz(0)], I.z[I.iz(0)]); });
	add("zddVar", "z0", [](In &I) { int v = I.n(0, 0, I.NZ - 1); T e(I.WZ); for (size_t k = 0; k < I.WZ; k++) e[k] = k >> v & 1; I.resZ(I.iz(2), R([&] { return Cudd_zddIthVar(I.m, v); }), e); });
	add("zddQueries", "z0", [](In &I) { const T &f = I.z[I.iz(0)]; DdNode *F = I.Z[I.iz(0)]; DdManager *m = I.m; auto need = [&](bool c, const char *w) { if (!c) violation(string("wrong_result:") + w, I.hist() + ": " + w + " is wrong for " + In::show(f)); };
		switch ((unsigned long)I.op->a[3] % 4) {
		case 0: { int r = R([&] { return Cudd_zddCount(m, F); }); if (r < 0) { I.refused(); return; } need(r == I.cnt(f), "zddCount"); break; }
		case 1: { double r = R([&] { return Cudd_zddCountDouble(m, F); }); if (r < 0) { I.refused(); return; } need(r == I.cnt(f), "zddCountDouble"); break; }
		case 2: { unsigned long su = 0; for (size_t k = 0; k < I.WZ; k++) if (f[k]) su |= k; if (I.zm == 2) return; DdNode *r = R([&] { return Cudd_zddSupport(m, F); }); if (!r) { I.refused(); return; } R([&] { Cudd_Ref(r); return 0; }); T g = I.rb(r); I.drop(r); if (g != I.cubeT(su, ~0UL)) need(false, "zddSupport"); break; }
		case 3: { DdGen *g; int *c; T u(I.WZ, 0); g = R([&] { return Cudd_zddFirstPath(m, F, &c); }); if (!g) { I.refused(); return; } long n = 0; while (!Cudd_IsGenEmpty(g)) { size_t k = 0; for (int i = 0; i < I.NZ; i++) if (c[i] == 1) k |= (size_t)1 << i; need(!u[k], "zddFirstPath/NextPath distinct"); u[k] = 1; if (++n > 5000) break; R([&] { return Cudd_zddNextPath(g, &c); }); } R([&] { Cudd_GenFree(g); return 0; }); need(u == f, "zddFirstPath/NextPath"); break; }
		} I.good(); });
	add("zddPort", "z2", [](In &I) { if (I.zm != 1 || I.dynWanted || I.S.knob("dynz")) return; for (int i = 0; i < I.N; i++) if (Cudd_ReadPerm(I.m, i) != Cudd_ReadPermZdd(I.m, i)) return;   // documented: the two orders must agree
		 if (I.op->a[3] & 1) I.resZ(I.iz(2), R([&] { return Cudd_zddPortFromBdd(I.m, I.B[I.ib(0)]); }), I.b[I.ib(0)]); else I.resB(I.ib(2), R([&] { return Cudd_zddPortToBdd(I.m, I.Z[I.iz(0)]); }), I.z[I.iz(0)]); });
	add("zddUnate", "z2", [](In &I) { if (I.zm != 1) return; const T &f = I.z[I.iz(0)], &g = I.z[I.iz(1)]; T e(I.WZ, 0); DdManager *m = I.m; if (I.op->a[3] & 1) { for (size_t i = 0; i < I.WZ; i++) if (f[i]) for (size_t j = 0; j < I.WZ; j++) if (g[j]) e[i | j] = 1; I.resZ(I.iz(2), R([&] { return Cudd_zddUnateProduct(m, I.Z[I.iz(0)], I.Z[I.iz(1)]); }), e); }
		else { if (In::zero(g)) return; for (size_t d = 0; d < I.WZ; d++) { bool all = true; for (size_t c = 0; c < I.WZ && all; c++) if (g[c] && ((c & d) || !f[c | d])) all = false; e[d] = all; } I.resZ(I.iz(2), R([&] { return I.op->a[3] & 2 ? Cudd_zddDivide(m, I.Z[I.iz(0)], I.Z[I.iz(1)]) : Cudd_zddDivideF(m, I.Z[I.iz(0)], I.Z[I.iz(1)]); }), e); } });
	add("zddCover", "z1", [](In &I) { if (I.zm != 2 || !I.pairsAdjacent()) return; const T f = I.z[I.iz(0)], g = I.z[I.iz(1)]; if (!validCover(I, f) || !validCover(I, g)) return; T e(I.WZ, 0); DdManager *m = I.m; DdNode *F = I.Z[I.iz(0)], *G = I.Z[I.iz(1)];
		switch ((unsigned long)I.op->a[3] % 4) {
		case 0: { for (size_t i = 0; i < I.WZ; i++) if (f[i]) for (size_t j = 0; j < I.WZ; j++) if (g[j]) { size_t k = i | j; bool ok = true; for (int v = 0; v < I.N; v++) if ((k >> (2 * v) & 3) == 3) ok = false; if (ok) e[k] = 1; } I.resZ(I.iz(2), R([&] { return Cudd_zddProduct(m, F, G); }), e); break; }
		case 1: { if (In::zero(g)) return; auto vs = [&](size_t c) { size_t r = 0; for (int v = 0; v < I.N; v++) if (c >> (2 * v) & 3) r |= (size_t)3 << (2 * v); return r; }; for (size_t d = 0; d < I.WZ; d++) { bool all = true; for (int v = 0; v < I.N; v++) if ((d >> (2 * v) & 3) == 3) all = false; for (size_t c = 0; c < I.WZ && all; c++) if (g[c] && ((vs(c) & d) || !f[c | d])) all = false; e[d] = all; } I.resZ(I.iz(2), R([&] { return I.op->a[4] & 1 ? Cudd_zddWeakDiv(m, F, G) : Cudd_zddWeakDivF(m, F, G); }), e); break; }
		case 2: { DdNode *r = R([&] { return Cudd_zddComplement(m, F); }); if (!r) { I.refused(); return; } R([&] { Cudd_Ref(r); return 0; }); T c = I.rz(r); if (!validCover(I, c) || coverFun(I, c) != In::tnot(coverFun(I, f))) I.bad("a cover of the complement", In::show(c)); int d = I.iz(2); I.dropZ(I.Z[d]); I.Z[d] = r; I.z[d] = c; I.good(); break; }
		case 3: I.resB(I.ib(2), R([&] { return Cudd_MakeBddFromZddCover(m, F); }), coverFun(I, f)); break; } });
	add("zddIsop", "z1", [](In &I) { if (I.zm != 2 || !I.pairsAdjacent()) return; int x = I.ib(0), y = I.ib(1); T l = In::tand(I.b[x], I.b[y]), u = In::tor(I.b[x], I.b[I.ib(4)]); DdManager *m = I.m; DdNode *L, *U; { In::Quiet q(I); L = I.must(I.shannonB(l, 0), "bound"); U = I.must(I.shannonB(u, 0), "bound"); } I.begin(); DdNode *zi = nullptr; DdNode *r = R([&] { DdNode *q = Cudd_zddIsop(m, L, U, &zi); if (q) { Cudd_Ref(q); Cudd_Ref(zi); } return q; }); if (!r) I.refused(); else { T g = I.rb(r), c = I.rz(zi); if (!In::leq(l, g) || !In::leq(g, u)) I.bad("a function between the bounds", In::show(g)); if (!validCover(I, c) || coverFun(I, c) != g) I.bad("a cover of the returned function", In::show(c));
			vector<size_t> cs; for (size_t k = 0; k < I.WZ; k++) if (c[k]) cs.push_back(k); for (size_t i = 0; i < cs.size(); i++) { T o = c; o[cs[i]] = 0; if (In::leq(l, coverFun(I, o))) I.bad("an irredundant cover", "a redundant one"); }
			int d = I.ib(2), e = I.iz(2); I.drop(I.B[d]); I.B[d] = r; I.b[d] = g; I.dropZ(I.Z[e]); I.Z[e] = zi; I.z[e] = c; I.good(); } I.drop(L); I.drop(U); });
	// ---------------------------------------------------------------- reordering
	add("reduce", "r", [](In &I) { static const Cudd_ReorderingType M[] = {CUDD_REORDER_SAME, CUDD_REORDER_RANDOM, CUDD_REORDER_RANDOM_PIVOT, CUDD_REORDER_SIFT, CUDD_REORDER_SIFT_CONVERGE, CUDD_REORDER_SYMM_SIFT, CUDD_REORDER_SYMM_SIFT_CONV, CUDD_REORDER_WINDOW2, CUDD_REORDER_WINDOW3, CUDD_REORDER_WINDOW4, CUDD_REORDER_WINDOW2_CONV, CUDD_REORDER_WINDOW3_CONV, CUDD_REORDER_WINDOW4_CONV, CUDD_REORDER_GROUP_SIFT, CUDD_REORDER_GROUP_SIFT_CONV, CUDD_REORDER_ANNEALING, CUDD_REORDER_GENETIC, CUDD_REORDER_LAZY_SIFT, CUDD_REORDER_EXACT}; auto w = M[(unsigned long)I.op->a[0] % (sizeof M / sizeof *M)];
		int r = R([&] { return Cudd_ReduceHeap(I.m, w, I.n(1, 0, 3) ? 0 : 30); }); if (!r) I.refused(); else I.good(); I.unchecked = true; });
	add("shuffle", "r", [](In &I) { if (!I.groups.empty()) return; auto p = rndPerm(I.sz(), I.op->a[0]); int r = R([&] { return Cudd_ShuffleHeap(I.m, p.data()); }); if (!r) { I.refused(); return; } if (!I.linear) for (int i = 0; i < I.sz(); i++) if (Cudd_ReadInvPerm(I.m, i) != p[i]) violation("wrong_result:ShuffleHeap", I.hist() + ": the order is not the requested one"); I.good(); I.unchecked = true; });
	add("group", "r", [](In &I) { if (I.zm || I.linear || I.sz() < 2) return; if (I.groups.size() >= 3) return; int lv = I.n(0, 0, I.sz() - 2), len = I.n(1, 2, min(4, I.sz() - lv)); bool fixed = I.op->a[3] & 1; vector<int> G; for (int i = 0; i < len; i++) G.push_back(Cudd_ReadInvPerm(I.m, lv + i)); for (auto &o : I.groups) { int c = 0; for (int i : o) for (int j : G) c += i == j; if (c != 0) return; } MtrNode *t = R([&] { return Cudd_MakeTreeNode(I.m, G[0], len, fixed ? MTR_FIXED : MTR_DEFAULT); }); if (!t) { if ((long)SH->fired[FK_ALLOC] == I.allocMark) violation("refused_without_cause:MakeTreeNode", I.hist()); I.resourceTrouble = true; return; } I.groups.push_back(G); I.groupFixed.push_back(fixed); I.good(); });
	add("ungroup", "r", [](In &I) { R([&] { Cudd_FreeTree(I.m); return 0; }); I.groups.clear(); I.groupFixed.clear(); I.good(); });
	add("zreduce", "z3", [](In &I) { static const Cudd_ReorderingType M[] = {CUDD_REORDER_SAME, CUDD_REORDER_RANDOM, CUDD_REORDER_RANDOM_PIVOT, CUDD_REORDER_SIFT, CUDD_REORDER_SIFT_CONVERGE, CUDD_REORDER_SYMM_SIFT, CUDD_REORDER_SYMM_SIFT_CONV}; auto w = M[(unsigned long)I.op->a[0] % (sizeof M / sizeof *M)]; int r = R([&] { return Cudd_zddReduceHeap(I.m, w, 0); }); if (!r) I.refused(); else I.good(); I.unchecked = true; });
	add("zshuffle", "z3", [](In &I) { if (I.zm != 1) return; auto p = rndPerm(I.NZ, I.op->a[0]); int r = R([&] { return Cudd_zddShuffleHeap(I.m, p.data()); }); if (!r) { I.refused(); return; } for (int i = 0; i < I.NZ; i++) if (Cudd_ReadInvPermZdd(I.m, i) != p[i]) violation("wrong_result:zddShuffleHeap", I.hist() + ": the order is not the requested one"); I.good(); I.unchecked = true; });
	add("linear", "l", [](In &I) { if (I.zm || !I.A.empty() || !I.groups.empty() || I.dynWanted) return; I.linear = true; int r = R([&] { return Cudd_ReduceHeap(I.m, I.op->a[0] & 1 ? CUDD_REORDER_LINEAR : CUDD_REORDER_LINEAR_CONVERGE, 0); }); if (!r) I.refused(); else I.good(); I.unchecked = true; });
	// ---------------------------------------------------------------- manager
	add("gc", "m", [](In &I) { for (int k = 0; k < 2; k++) R([&] { if (I.op->a[0] & 1) return cuddGarbageCollect(I.m, 1); cuddCacheFlush(I.m); return cuddGarbageCollect(I.m, 0); });   // the first call may only raise the threshold
		if (I.limTime) Cudd_ClearErrorCode(I.m); else if (Cudd_ReadDead(I.m) != 0) violation("garbage_left", I.hist() + ": dead nodes remain after a garbage collection"); I.unchecked = true; });
	add("gcOnOff", "m", [](In &I) { if (I.op->a[0] & 1) Cudd_EnableGarbageCollection(I.m); else Cudd_DisableGarbageCollection(I.m); });
	add("cacheFlush", "m", [](In &I) { R([&] { cuddCacheFlush(I.m); return 0; }); });
	add("dynOnOff", "m", [](In &I) { if (!I.dynWanted) return; if (I.op->a[0] & 1) { static const Cudd_ReorderingType M[] = {CUDD_REORDER_SIFT, CUDD_REORDER_WINDOW3, CUDD_REORDER_SYMM_SIFT, CUDD_REORDER_GROUP_SIFT, CUDD_REORDER_RANDOM, CUDD_REORDER_LAZY_SIFT}; Cudd_AutodynEnable(I.m, M[(unsigned long)I.op->a[1] % 6]); Cudd_SetNextReordering(I.m, I.n(2, 1, 60)); } else Cudd_AutodynDisable(I.m); });
	add("bindVar", "m", [](In &I) { int v = I.iv(0); int r = R([&] { return I.op->a[1] & 1 ? Cudd_bddBindVar(I.m, v) : Cudd_bddUnbindVar(I.m, v); }); if (!r) violation("wrong_result:bddBindVar", I.hist()); });
	add("reserve", "m", [](In &I) { int r = R([&] { return Cudd_Reserve(I.m, I.n(0, 0, 12)); }); if (!r) I.refused(); else I.good(); I.unchecked = true; });
	add("print", "m", [](In &I) { if (I.linear) return; bool ok = R([&] { return Cudd_PrintInfo(I.m, I.sink) && Cudd_PrintMinterm(I.m, I.B[I.ib(0)]) && Cudd_PrintDebug(I.m, I.B[I.ib(0)], I.sz(), 3) && Cudd_bddPrintCover(I.m, I.B[I.ib(0)], I.B[I.ib(0)]); }); if (!ok) I.refused(); });
	add("derefLate", "m", [](In &I) { // a result that is dropped while it still sits in the delayed queue, then asked for again
		int x = I.ib(0), y = I.ib(1); DdNode *r = R([&] { DdNode *q = Cudd_bddXor(I.m, I.B[x], I.B[y]); if (q) { Cudd_Ref(q); if (I.op->a[3] & 1) Cudd_DelayedDerefBdd(I.m, q); else Cudd_IterDerefBdd(I.m, q); } return q; }); if (!r) { I.refused(); return; } DdNode *s = R([&] { return Cudd_bddXor(I.m, I.B[x], I.B[y]); }); I.resB(I.ib(2), s, In::txor(I.b[x], I.b[y])); });
	// ---------------------------------------------------------------- faults
	add("allocfail", "x", [](In &I) { CFG.allocFailAt = SH->allocs + I.n(0, 0, 40); CFG.allocFailLen = I.op->a[1] % 5 == 4 ? -1 : 1 + (I.op->a[1] & 3); });
	add("allocok", "x", [](In &I) { CFG.allocFailAt = -1; });
	add("maxlive", "x", [](In &I) { long live = Cudd_ReadKeys(I.m) - Cudd_ReadDead(I.m); Cudd_SetMaxLive(I.m, live + I.n(0, 0, 60)); I.limLive = true; fire(FK_LIVELIMIT); });
	add("maxmem", "x", [](In &I) { Cudd_SetMaxMemory(I.m, Cudd_ReadMemoryInUse(I.m) + (I.op->a[0] & 1 ? 0 : I.n(0, 0, 100000))); I.limMem = true; fire(FK_MEMLIMIT); });
	add("timelimit", "x", [](In &I) { R([&] { Cudd_ResetStartTime(I.m); return 0; }); Cudd_SetTimeLimit(I.m, I.n(0, 0, 5)); I.limTime = true; fire(FK_TIMEOUT); });
	add("clockjump", "x", [](In &I) { clockAdvance(I.n(0, 1, 10000000)); fire(FK_CLOCK_JUMP_FWD, I.op->a[0]); });
	add("terminate", "x", [](In &I) { R([&] { Cudd_RegisterTerminationCallback(I.m, termCb, nullptr); return 0; }); termLeft = I.n(0, 0, 6); });
	add("unlimit", "x", [](In &I) { Cudd_UnsetTimeLimit(I.m); Cudd_SetMaxLive(I.m, ~0U); Cudd_SetMaxMemory(I.m, ~(size_t)0); termLeft = -1; if (I.op->a[0] & 1) Cudd_UnregisterTerminationCallback(I.m); I.limTime = I.limMem = I.limLive = false; CFG.allocFailAt = -1; });
	// ---------------------------------------------------------------- files
#include "cudd_files.inc"
}
