#!/usr/bin/env python3
# mutate.py BASE [property ...]: development tool, see mutants.py
import sys, os, subprocess, shutil, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(__file__)); from mutants import M
base, only = sys.argv[1], sys.argv[2:]
def run(m):
    p, k, f, old, new = m[:5]; name = f'{p}{k}'; d = f'/tmp/mut/{name}'
    src = open(f'{base}/{f}').read(); n = src.count(old)
    if n < 1: return name, f'NOT FOUND'
    shutil.rmtree(d, ignore_errors=True); shutil.copytree(base, d, symlinks=True, ignore=shutil.ignore_patterns('.git', 'bin', '*.o'))
    open(f'{d}/{f}', 'w').write(src.replace(old, new) if len(m) > 5 else src.replace(old, new, 1))
    work = f'/tmp/mut/w_{name}'
    shutil.copytree('/verif', work, ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence'), dirs_exist_ok=True)
    r = subprocess.run(['timeout', '900', 'python3', f'{work}/run.py', p, 'quick'], env=dict(os.environ, VS_REPO=d), capture_output=True, text=True)
    shutil.rmtree(d); shutil.rmtree(work)
    out = [l for l in r.stdout.splitlines() if 'VIOLATION' in l or 'KNOWN' in l][:2]
    return name, {0: 'missed', 1: 'caught'}.get(r.returncode, f'rc={r.returncode}') + ' ' + ' | '.join(out)[:300] + (r.stderr[-600:] if r.returncode not in (0, 1) else '')
ms = [m for m in M if not only or m[0] in only or m[0] + m[1] in only]
with cf.ThreadPoolExecutor(int(os.environ.get('J', '1'))) as ex:
    for n, res in ex.map(run, ms): print(n, res, flush=True)
