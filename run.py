#!/usr/bin/env python3
"""run.py <property> [quick|thorough]  -- decides one property by symbolic execution of /repo's current code."""
import sys, os, json, hashlib, subprocess, glob, shutil, time, tempfile, re
from concurrent.futures import ThreadPoolExecutor
import threading
AL = threading.Lock()
V = os.path.dirname(os.path.abspath(__file__)); R = os.environ.get('VS_REPO', '/repo'); B = os.path.join(V, 'build')
sys.path.insert(0, V)
from checks import CHECKS
NPROC = os.cpu_count() or 8
INC = [f'-I{R}/include', f'-I{R}/src', f'-I{R}/external', f'-I{R}', f'-I{V}/engine', f'-I{V}/harness', '-w', '-std=c++20', '-fno-access-control']
IRF = ['-O1', '-fno-pic', '-fno-inline', '-fno-vectorize', '-fno-slp-vectorize', '-ffp-contract=off', '-D_GLIBCXX_EXTERN_TEMPLATE=0']
WRAP = ['pthread_rwlock_rdlock', 'pthread_rwlock_wrlock', 'pthread_rwlock_tryrdlock', 'pthread_rwlock_trywrlock', 'pthread_rwlock_unlock', 'pthread_once', 'nanosleep', 'usleep', 'sched_yield', '_ZNSt6thread6detachEv', '__cxa_thread_atexit', 'pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_mutex_trylock', 'pthread_cond_wait', 'pthread_cond_clockwait', 'pthread_cond_timedwait', '_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE', '_ZNSt18condition_variable10notify_allEv', '_ZNSt18condition_variable10notify_oneEv',
        '_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE', '_ZNSt6thread4joinEv']
class Err(Exception): pass
ATOM = None
def atom():
    """where the code uses std::atomic, its operations become scheduling points (engine/vs_atomic.h), if the code compiles that way"""
    global ATOM
    with AL:
        if ATOM is None:
            ATOM = []
            if any(re.search(rb'\batomic(_\w+)?\b', open(f, 'rb').read()) for f in tree_files()):
                a = ['-include', f'{V}/engine/vs_atomic.h']
                with ThreadPoolExecutor(NPROC) as ex: ok = all(ex.map(lambda f: sh(['clang++-18', '-fsyntax-only', *INC, *a, f])[0] == 0, sources()))
                if ok: ATOM = a
    return ATOM
def sh(cmd, timeout=600, env=None):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
    return p.returncode, p.stdout.decode(errors='replace')
def must(cmd, what, timeout=600):
    rc, o = sh(cmd, timeout)
    if rc != 0: raise Err(f'{what} failed:\n{o[-3000:]}')
def tree_files():
    fs = []
    for d in ('src', 'include'):
        for root, _, names in os.walk(f'{R}/{d}'):
            fs += [os.path.join(root, n) for n in names if n.endswith(('.cpp', '.h', '.cc', '.hpp'))]
    return sorted(fs)
def tree_hash(extra=''):
    h = hashlib.sha256(extra.encode())
    for f in tree_files(): h.update(f.encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()[:20]
def sources(): return [f for f in tree_files() if f.endswith('.cpp') and os.path.basename(f) != 'main.cpp' and '/main' not in os.path.basename(f)]
def par(cmds, what):
    with ThreadPoolExecutor(NPROC) as ex: list(ex.map(lambda c: must(c, what), cmds))
def cached(key, build):
    """build into a temporary directory, then rename: concurrent runs cannot see half-built output"""
    d = os.path.join(B, 'cache', key)
    if os.path.isdir(d): return d
    os.makedirs(os.path.join(B, 'cache'), exist_ok=True); t = tempfile.mkdtemp(prefix='tmp_', dir=os.path.join(B, 'cache'))
    try:
        build(t)
        try: os.rename(t, d)
        except OSError: shutil.rmtree(t, ignore_errors=True)
    except BaseException: shutil.rmtree(t, ignore_errors=True); raise
    return d
def prune():
    c = os.path.join(B, 'cache')
    if not os.path.isdir(c): return
    ds = sorted((os.path.join(c, x) for x in os.listdir(c)), key=os.path.getmtime)
    for d in ds[:-24]:
        if time.time() - os.path.getmtime(d) > 3600: shutil.rmtree(d, ignore_errors=True)
def repo_ir():
    def build(t):
        par([['clang++-18', *IRF, *INC, *atom(), '-c', '-emit-llvm', f, '-o', f'{t}/{i}.bc'] for i, f in enumerate(sources())], 'compiling /repo to IR')
        must(['llvm-link-18', *sorted(glob.glob(f'{t}/*.bc')), '-o', f'{t}/repo.bc'], 'llvm-link')
        must(['clang++-18', *IRF, *INC, '-c', '-emit-llvm', f'{V}/engine/rt.cpp', '-o', f'{t}/rt.bc'], 'guest runtime')
        for f in glob.glob(f'{t}/[0-9]*.bc'): os.remove(f)
    return cached('ir_' + tree_hash(open(f'{V}/engine/rt.cpp').read() + ' '.join(IRF + atom())), build)
def native_objs(flags, tag):
    def build(t): par([['g++', '-O0', '-g1', *flags, *INC, *atom(), '-c', f, '-o', f'{t}/{i}.o'] for i, f in enumerate(sources())], 'native build of /repo')
    return cached(f'no_{tag}_' + tree_hash(' '.join(flags + atom())), build)
def harness_src(h): return f'{V}/harness/{h}.cpp'
LOCKS = {}
import threading
GL = threading.Lock()
def native_exe(wd, harness, tag, defs):
    """one executable per harness; the entry is chosen at run time by VS_ENTRY"""
    san = {'plain': [], 'asan': ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=vptr'], 'tsan': ['-fsanitize=thread']}[tag]
    exe = f'{wd}/{harness}_{hashlib.md5(repr(defs).encode()).hexdigest()[:8]}.{tag}'
    with GL: lk = LOCKS.setdefault(exe, threading.Lock())
    with lk:
        if os.path.exists(exe): return exe
        no = native_objs(san, tag); sched = tag != 'tsan'
        par([['g++', '-O0', '-g1', *san, *INC, *atom(), *defs, '-c', harness_src(harness), '-o', exe + '.o'],
             ['g++', '-O1', '-g1', *san, *INC, *(['-DVS_SCHED'] if sched else []), '-c', f'{V}/engine/native.cpp', '-o', exe + '.n.o']], 'native harness build')
        must(['g++', '-g1', *san, '-rdynamic', exe + '.n.o', exe + '.o', *sorted(glob.glob(f'{no}/*.o')), '-o', exe + '.t', '-lpthread', '-ldl', *([f'-Wl,--wrap={w}' for w in WRAP] if sched else [])], 'native link')
        os.rename(exe + '.t', exe)
    return exe
def replay(wd, harness, entry, defs, cex):
    """returns (confirmed, text)"""
    txt = open(cex).read(); kind = re.search(r'^!kind (\S+)', txt, re.M).group(1)
    env = dict(os.environ, VS_CEX=cex, VS_ENTRY=entry); undef = 'undef_' in txt
    def run(exe, e, to=60):
        try: return sh([exe], to, e)
        except subprocess.TimeoutExpired: return 124, 'timeout'
    if kind == 'race':
        exe = native_exe(wd, harness, 'tsan', defs); env['VS_NOSCHED'] = '1'; env['TSAN_OPTIONS'] = 'halt_on_error=1 exitcode=66 report_thread_leaks=0'
        cmd0 = ['setarch', '-R'] if shutil.which('setarch') else []
        for i in range(40):
            env['VS_JITTER'] = str(i)
            try: rc, o = sh([exe], 60, env)
            except subprocess.TimeoutExpired: continue
            if 'unexpected memory mapping' in o and cmd0:
                rc, o = sh(cmd0 + [exe], 60, env)
            if 'ThreadSanitizer: data race' in o: return True, o[:4000]
        return False, 'ThreadSanitizer did not observe the race in 40 runs'
    tag = 'asan' if kind == 'memory' else 'plain'
    exe = native_exe(wd, harness, tag, defs); out = ''
    for fill in ([None, '1', '127', '170', '255'] if undef else [None]):
        e = dict(env)
        if fill: e['MALLOC_PERTURB_'] = fill; e['ASAN_OPTIONS'] = f'malloc_fill_byte={fill}:max_malloc_fill_size=4096'
        e.setdefault('ASAN_OPTIONS', ''); e['ASAN_OPTIONS'] += ':detect_leaks=0'
        rc, out = run(exe, e)
        if rc == 42: return True, out
        if kind == 'memory' and (rc < 0 or 'ERROR: AddressSanitizer' in out or 'runtime error:' in out): return True, out[:4000]
        if rc < 0: return True, f'crashed with signal {-rc}\n' + out[-2000:]
        if kind in ('deadlock',) and (rc == 124 or 'REPLAY-DEADLOCK' in out): return True, 'the replay cannot make progress\n' + out
        if kind == 'assert' and rc == 45: return True, 'uncaught exception instead\n' + out
    return False, f'exit {rc}: ' + out[-1500:]
def known(prop):
    ks = []
    p = f'{V}/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) entry=(\S+) match="([^"]*)" (.*)', l.strip())
            if m and m.group(1) == prop: ks.append(dict(entry=m.group(2), match=m.group(3), text=m.group(4)))
    return ks
def main():
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only = sys.argv[3].split(',') if len(sys.argv) > 3 else None
    t0 = time.time(); cfg = CHECKS[prop]; ents = [e for e in cfg['entries'] if tier == 'thorough' or not e.get('thorough_only')]
    if only: ents = [e for e in ents if e['e'] in only]
    must(['bash', f'{V}/engine/build.sh'], 'building the engine')
    os.makedirs(f'{V}/evidence', exist_ok=True); os.makedirs(f'{B}/work', exist_ok=True); prune()
    wd = tempfile.mkdtemp(prefix=f'{prop}_', dir=f'{B}/work')
    try: rc = decide(prop, tier, seed, cfg, ents, wd, t0)
    finally: shutil.rmtree(wd, ignore_errors=True)
    sys.exit(rc)
def decide(prop, tier, seed, cfg, ents, wd, t0):
    ir = repo_ir(); T = 1 if tier == 'thorough' else 0
    keys = sorted({(e['h'], tuple(e.get('defs', []))) for e in ents})
    def defs_of(ds): return [f'-DVS_TIER={T}', *ds]
    bcs = {}
    def comp(k):
        h, ds = k; o = f'{wd}/{h}_{hashlib.md5(repr(ds).encode()).hexdigest()[:8]}.bc'
        must(['clang++-18', *IRF, *INC, *atom(), '-DVS_GUEST', *defs_of(ds), '-c', '-emit-llvm', harness_src(h), '-o', o + '.h'], f'compiling harness {h}')
        must(['llvm-link-18', f'{ir}/repo.bc', f'{ir}/rt.bc', o + '.h', '-o', o], 'llvm-link'); return k, o
    with ThreadPoolExecutor(NPROC) as ex: bcs = dict(ex.map(comp, keys))
    budget = cfg.get('budget', (420, 3000))[T]
    conc = min(len(ents), cfg.get('conc', 4)) or 1; jobs = max(2, NPROC // conc + 1)
    def one(e):
        out = f'{wd}/out_{e["e"]}_{len(e.get("defs", []))}_{hashlib.md5(repr(e).encode()).hexdigest()[:6]}'; os.makedirs(out)
        to = e.get('timeout', (150, 1200))[T]; op = list(e.get('opts', [])) + list(e.get('opts_t' if T else 'opts_q', []))
        left = budget - (time.time() - t0); to = max(10, min(to, left))
        cmd = [f'{B}/vsym', bcs[(e['h'], tuple(e.get('defs', [])))], '--entry', e['e'], '--out', out, '--timeout', str(to), '--jobs', str(jobs), '--seed', str(seed), '--hard', str(e.get('hard', (12, 60))[T]), '--samples', str(e.get('samples', 2))] + op
        try: rc, o = sh(cmd, to + 240)
        except subprocess.TimeoutExpired: rc, o = 124, 'engine timed out'
        r = None
        try: r = json.load(open(f'{out}/result.json'))
        except Exception as ex2: r = None
        return e, out, r, o
    with ThreadPoolExecutor(conc) as ex: res = list(ex.map(one, ents))
    viol = []; unconf = []; kn = []; cov = []; ks = known(prop); valid = 0; disagree = []; knownseen = set()
    fns = set(); tot = dict(states=0, transitions=0, queries=0, unsat=0, sat=0, unknown=0, solver_s=0.0); incomplete = []
    for e, out, r, o in res:
        if r is None: raise Err(f'engine failed on {e["e"]}: {o[-1500:]}')
        tot['states'] += r['paths']; tot['transitions'] += r['steps']; tot['queries'] += r['queries']; tot['unsat'] += r['unsat']; tot['sat'] += r['sat']; tot['unknown'] += r['unknown']; tot['solver_s'] += r['solver_seconds']
        fns |= {f for f in r['functions'] if 'thts::' in f and not f.startswith(('std::', 'void std::', 'bool std::'))}
        bad = {k: v for k, v in r['ends'].items() if k in ('steps', 'unsupported', 'time', 'unknown') and v}
        miss = [t for t in e.get('reach', []) if t not in r['reach']]
        if bad: incomplete.append(f'{e["e"]}: {bad} {r["incomplete"][:4]}')
        if miss: incomplete.append(f'{e["e"]}: witness not reached: {miss}')
        cov.append(dict(entry=e['e'], defs=e.get('defs', []), bounds=e.get('bounds', ''), paths=r['paths'], ends=r['ends'], queries=r['queries'], solver_s=round(r['solver_seconds'], 2), seconds=round(r['seconds'], 2), threads=r['threads'], sched_points=r['sched_points'], preemption_bound=r['preempt_bound'] if r['threads'] > 1 else None, race_checked_accesses=r['race_checked_accesses'], assertions=[dict(a) for a in r['sites']], reached=r['reach'], notes=r['notes'][:8], incomplete=r['incomplete'][:8]))
        defs = defs_of(e.get('defs', []))
        # counterexamples -> replay
        confirmed = {}
        for c in sorted(glob.glob(f'{out}/cex_*.txt')):
            txt = open(c).read(); msg = re.search(r'^!msg (.*)$', txt, re.M).group(1); m2 = re.search(r'^!extra (.*)$', txt, re.M); ext = m2.group(1) if m2 else ''
            kk = next((k for k in ks if k['entry'] in (e['e'], '*') and k['match'] in (msg + ' | ' + ext)), None)
            if kk: knownseen.add(kk['text']); continue
            if confirmed.get(msg, 0) >= 1 or len(viol) >= 4: continue
            if time.time() - t0 > 780 and T == 0: unconf.append(dict(entry=e['e'], msg=msg, why='no time left to replay')); continue
            ok, why = replay(wd, e['h'], e['e'], defs, c)
            if ok:
                confirmed[msg] = 1; dst = f'{V}/evidence/{prop}_{e["e"]}_{os.path.basename(c)}'; open(dst, 'w').write(txt + '\n!replay ' + why.replace('\n', '\n!        ') + '\n')
                viol.append(dict(entry=e['e'], msg=msg, extra=ext, replay=dst))
            else: unconf.append(dict(entry=e['e'], msg=msg, extra=ext[:300], why=why[-600:]))
    def validate(job):
        e, c = job
        try:
            exe = native_exe(wd, e['h'], 'plain', defs_of(e.get('defs', []))); rc, oo = sh([exe], 60, dict(os.environ, VS_CEX=c, VS_ENTRY=e['e']))
            return (1, None) if rc == 0 else (0, None) if rc == 43 else (0, f'{e["e"]}: {oo[-200:]}')
        except subprocess.TimeoutExpired: return 0, f'{e["e"]}: native run timed out'
    if not viol and time.time() - t0 < 600:
        vj = [(e, c) for e, out, r, o in res if e.get('validate', True) for c in sorted(glob.glob(f'{out}/ok_*.txt'))]
        with ThreadPoolExecutor(NPROC) as ex:
            for ok, d in ex.map(validate, vj):
                valid += ok
                if d: disagree.append(d)
    for k in sorted(knownseen): print(f'KNOWN-FINDING: property={prop} {k}')
    for v in viol: print(f'VIOLATION property={prop} replay={v["replay"]}'); print(f'  {v["entry"]}: {v["msg"]} {v["extra"][:300]}')
    for u in unconf: print(f'note: unconfirmed counterexample in {u["entry"]}: {u["msg"]} ({u["why"][:200]})')
    samples = []
    for e, out, r, o in res:
        for c in sorted(glob.glob(f'{out}/ok_*.txt'))[:1]: samples.append(dict(entry=e['e'], path_model=open(c).read()[:600].split('\n')))
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', wall_s=round(time.time() - t0, 2), violations=len(viol),
              coverage=dict(states=tot['states'], transitions=tot['transitions'], traces_validated_against_impl=valid, samples=samples[:4] or ['(no completed path)'],
                            exhaustive=not incomplete, incomplete=incomplete, queries=tot['queries'], unsat=tot['unsat'], sat=tot['sat'], unknown=tot['unknown'], solver_seconds=round(tot['solver_s'], 2),
                            functions_encoded=len(fns), functions=sorted(fns)[:600], entries=cov, unconfirmed_counterexamples=unconf, native_disagreements=disagree,
                            explanation='states = symbolic paths decided; transitions = IR instructions executed symbolically'),
              assumptions=cfg.get('assumptions', []) + COMMON)
    json.dump(ev, open(f'{V}/evidence/{prop}.json', 'w'), indent=1)
    print(f'{prop} {tier}: paths={tot["states"]} queries={tot["queries"]} (unsat {tot["unsat"]}) solver={tot["solver_s"]:.1f}s validated={valid} disagreements={len(disagree)} incomplete={len(incomplete)} wall={time.time()-t0:.1f}s')
    for i in incomplete: print('  incomplete:', i[:400])
    for d in disagree: print('  disagreement:', d[:300])
    return 1 if viol else 0
COMMON = ['double arithmetic is encoded over exact reals (inputs made with vs_real) or IEEE-754 (inputs made with vs_fp); numeric assertions have the stated tolerance',
          'exp/log/pow are uninterpreted with sound axioms, refined against the true function until the model is exact or unsat',
          'clock, random_device and the random source are arbitrary values within their contract',
          'threads: sequentially consistent interleavings at lock/wait/notify/join points within the preemption bound; races are detected by happens-before']
if __name__ == '__main__':
    try: main()
    except Err as e: print('ERROR', e); sys.exit(2)
