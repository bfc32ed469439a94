#!/usr/bin/env python3
"""Builds the simulators from /repo's current working tree into /verif/build (git-ignored).

Object files are named by a hash of everything they depend on (the source text, every header of
the same component, the flags), so a change of the code is always seen and an unchanged file is
never compiled twice.  Usage: build.py [engine] [cudd]
"""
import concurrent.futures as cf, fcntl, hashlib, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
OUT = os.path.join(HERE, 'build')
SRC = REPO + '/src'
CU = SRC + '/symbolic_search/cudd-3.0.0'

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b'\0')
    return h.hexdigest()[:24]
def rd(p):
    with open(p, 'rb') as f: return f.read()
def headers(root, skip=()):
    r = []
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if os.path.join(d, x) not in skip)
        for f in sorted(fs):
            if f.endswith(('.h', '.hpp', '.hh', '.inc')) and f != 'cmdline.h': r.append(os.path.join(d, f))
    return r
def hsum(files): return sha(*[x for f in files for x in (f, rd(f))])
def run(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode: raise RuntimeError(' '.join(cmd) + '\n' + p.stdout.decode(errors='replace')[-6000:])

class Job:
    def __init__(s, cmd, src, key): s.cmd, s.src, s.obj = cmd, src, os.path.join(OUT, 'obj', key + '.o')
    def do(s):
        if os.path.exists(s.obj): return
        t = s.obj + '.tmp%d' % os.getpid()
        run(s.cmd + ['-c', s.src, '-o', t]); os.rename(t, s.obj)

def gen_cmdline():
    ggo = rd(SRC + '/options.ggo'); g = os.path.join(OUT, 'gen-' + sha(ggo))
    if not os.path.exists(g + '/cmdline.c'):
        t = g + '.tmp'; shutil.rmtree(t, ignore_errors=True); os.makedirs(t)
        with open(t + '/options.ggo', 'wb') as f: f.write(ggo)
        run(['gengetopt', '--include-getopt', '--default-optional', '--unamed-opts', '-i', 'options.ggo'], cwd=t)
        shutil.rmtree(g, ignore_errors=True); os.rename(t, g)
    return g

def cudd_jobs():
    hs = hsum(headers(CU)); cfg = rd(HERE + '/build_support/cudd_config.h')
    inc = os.path.join(OUT, 'cuddcfg-' + sha(cfg)); os.makedirs(inc, exist_ok=True)
    with open(inc + '/config.h', 'wb') as f: f.write(cfg)
    I = ['-I' + inc] + ['-I%s/%s' % (CU, d) for d in ('.', 'cudd', 'st', 'mtr', 'epd', 'util', 'dddmp', 'cplusplus')]
    J = []
    for d in ('cudd', 'st', 'mtr', 'epd', 'util', 'dddmp', 'cplusplus'):
        for f in sorted(os.listdir(CU + '/' + d)):
            if f.startswith('test') or f in ('cuddBddCorr.tmp',): continue
            p = '%s/%s/%s' % (CU, d, f)
            if f.endswith('.c'): cmd = ['gcc', '-O1', '-g1', '-w', '-DPANDA_VERIF', '-DHAVE_CONFIG_H'] + I
            elif f.endswith('.cc'): cmd = ['g++', '-std=gnu++17', '-O1', '-g1', '-w', '-DPANDA_VERIF', '-DHAVE_CONFIG_H'] + I
            else: continue
            J.append(Job(cmd, p, sha('cudd', hs, cfg, ' '.join(cmd), p, rd(p))))
    return J, I

def engine_jobs():
    g = gen_cmdline(); hs = hsum(headers(SRC, {CU + '/nanotrav', CU + '/doc'})) + os.path.basename(g)
    dirs = ['', '/search', '/search/fringes', '/symbolic_search', '/heuristics', '/heuristics/rcHeuristics', '/heuristics/landmarks', '/intDataStructures', '/translation', '/sat']
    I = ['-I' + g] + ['-I' + SRC + d for d in dirs] + ['-isystem', CU + '/cudd', '-isystem', CU + '/cplusplus']
    base = ['g++', '-std=gnu++17', '-O1', '-g1', '-ftree-loop-distribute-patterns', '-DPANDA_VERIF', '-DNDEBUG', '-DIL_STD', '-DCMAKE_NO_ILP', '-w', '-include', g + '/cmdline.h'] + I
    J = [Job(['gcc', '-O1', '-w'], g + '/cmdline.c', sha('cmdline', rd(g + '/cmdline.c')))]
    for d, ds, fs in os.walk(SRC):
        ds[:] = sorted(x for x in ds if x not in ('cudd-3.0.0', 'dofHeuristics'))
        for f in sorted(fs):
            if not f.endswith('.cpp') or f == 'IntPairHeap-2.cpp': continue
            p = os.path.join(d, f); cmd = base + (['-Dmain=engine_main'] if f == 'SearchEngine.cpp' else [])
            J.append(Job(cmd, p, sha('engine', hs, ' '.join(cmd), p, rd(p))))
    return J

def sim_jobs(names, I=()):
    hs = hsum(headers(HERE + '/sim')); J = []
    for n in names:
        p = '%s/sim/%s.cpp' % (HERE, n); cmd = ['g++', '-std=c++17', '-O1', '-g1', '-w'] + list(I)
        J.append(Job(cmd, p, sha('sim', hs, ' '.join(cmd), rd(p), I and hsum(headers(CU)) or '')))
    return J

WRAPS = ['memset', 'Cudd_Init']
MON_WRAPS = ['_ZN11progression5Model5applyEPNS_10searchNodeEi', '_ZN11progression5Model9decomposeEPNS_10searchNodeEii', '_ZN11VisitedList10insertVisiEPN11progression10searchNodeE',
    '_ZN20OneQueueWAStarFringe4pushEPN11progression10searchNodeE', '_ZNK11progression5Model6isGoalEPNS_10searchNodeE', '_ZNK11progression5Model12isApplicableEPNS_10searchNodeEi']
def monitor_job():
    """The monitor is compiled with the planner's headers; if they have changed so much that it does not compile, it is left out."""
    g = gen_cmdline(); hs = hsum(headers(SRC, {CU + '/nanotrav', CU + '/doc'})) + os.path.basename(g)
    dirs = ['', '/search', '/search/fringes', '/symbolic_search', '/heuristics', '/heuristics/rcHeuristics', '/heuristics/landmarks', '/intDataStructures', '/translation', '/sat']
    I = ['-I' + g] + ['-I' + SRC + d for d in dirs] + ['-isystem', CU + '/cudd', '-isystem', CU + '/cplusplus', '-I' + HERE + '/sim']
    p = HERE + '/sim/monitor.cpp'; cmd = ['g++', '-std=gnu++17', '-O1', '-g1', '-DNDEBUG', '-DIL_STD', '-DCMAKE_NO_ILP', '-w', '-include', g + '/cmdline.h'] + I
    j = Job(cmd, p, sha('mon', hs, hsum(headers(HERE + '/sim')), ' '.join(cmd), rd(p)))
    try: j.do(); return j, ['-Wl,--wrap=' + w for w in MON_WRAPS]
    except RuntimeError as e:
        print('note: the monitor does not compile against this tree and is left out:', str(e)[-300:], file=sys.stderr)
        return sim_jobs(['monitor_stub'])[0], []

def build(which, jobs):
    os.makedirs(OUT + '/obj', exist_ok=True)
    # the big files first
    todo = sorted(jobs, key=lambda j: -os.path.getsize(j.src))
    with cf.ThreadPoolExecutor(os.cpu_count() or 8) as ex: list(ex.map(Job.do, todo))
def link(name, objs, extra):
    key = sha(*objs, *extra); exe = os.path.join(OUT, name + '-' + key)
    if not os.path.exists(exe):
        run(['g++', '-no-pie', '-g1', '-o', exe + '.tmp'] + objs + extra); os.rename(exe + '.tmp', exe)
    return exe
SIM_ENGINE = ['htn', 'monref', 'simrt', 'ipasir_sim', 'runner', 'fd_sim', 'cudd_knobs', 'driver', 'props_engine']
SIM_CUDD = ['simrt', 'driver_cudd', 'cudd_ops']

def make(which):
    os.makedirs(OUT, exist_ok=True)
    with open(OUT + '/lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        res = {}; C, I = cudd_jobs(); jobs = list(C)
        if 'engine' in which: E = engine_jobs(); S = sim_jobs(SIM_ENGINE); M, MW = monitor_job(); S = S + [M]; jobs += E + S
        if 'cudd' in which: K = sim_jobs(SIM_CUDD, I); jobs += K
        build(which, jobs)
        core = [j.obj for j in C if '/cudd-3.0.0/dddmp/' not in j.src]
        if 'engine' in which: res['engine'] = link('engsim', [j.obj for j in S + E] + core, ['-Wl,--wrap=' + w for w in WRAPS] + MW + ['-lpthread'])
        if 'cudd' in which: res['cudd'] = link('cuddsim', [j.obj for j in K] + [j.obj for j in C], ['-Wl,--wrap=memset', '-Wl,--wrap=fopen', '-lpthread'])
        # forget what has not been used for long (never what this build uses)
        keep = {os.path.basename(j.obj) for j in jobs} | {os.path.basename(x) for x in res.values()}
        for d in (OUT + '/obj', OUT):
            fs = [f for f in os.listdir(d) if os.path.isfile(os.path.join(d, f)) and f not in keep and f != 'lock']
            if len(fs) > 1200:
                fs.sort(key=lambda f: os.path.getmtime(os.path.join(d, f)))
                for f in fs[:600]: os.unlink(os.path.join(d, f))
        return res
if __name__ == '__main__':
    which = sys.argv[1:] or ['engine', 'cudd']
    try: print(make(which))
    except RuntimeError as e: print(e, file=sys.stderr); sys.exit(2)
