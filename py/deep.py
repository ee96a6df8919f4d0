"""C01, depth: inputs nested tens of thousands of levels, parsed and read on small stacks, each in its own process."""
import os, subprocess, time
from concurrent.futures import ThreadPoolExecutor
from vlib import *

SMALL = 1 << 20   # the stack parsing gets; it must not depend on the input's depth
MAIN = 8 << 20    # an ordinary main-thread stack, for dropping trees of ordinary depth
PROBES = [('stmts', 450_000), ('cases', 60_000)]  # known finding: dropping such trees


def one(exe, fam, n, stack, mode, cpu=CONFIRM_CPU, mem=12 << 30):
    out = os.path.join(BUILD, 'run', f'deep.{os.getpid()}.{fam}.{n}.{mode}')
    os.makedirs(os.path.dirname(out), exist_ok=True)
    with open(out, 'wb') as o:
        rc = run_watched([exe, 'deep', '--family', fam, '--n', str(n), '--stack', str(stack), '--mode', mode, '--spec', SPEC], o, cpu, mem)
    txt = open(out, errors='replace').read().strip()
    os.unlink(out)
    if rc is None:
        return 'Hang', f'no result after {cpu:.0f} s of CPU time'
    if rc != 0:
        return 'Crash', f'exit {rc}: {txt[-200:]}'
    last = txt.splitlines()[-1] if txt else ''
    if last.startswith('tree') and last.endswith('same=true'):
        return 'tree', last
    if last.startswith('error'):
        return 'error', last
    return 'Bad', last


def bad(kind):
    return kind in ('Crash', 'Hang', 'Bad')


def add(exe, d, r):
    fams = []
    for l in subprocess.run([exe, 'families', '--spec', SPEC], stdout=subprocess.PIPE, text=True, check=True).stdout.split():
        f, deep = l.split(':')
        if deep == '1':
            fams.append(f)
    n = 150_000 if THOROUGH else 20_000
    tasks = [(f, n, SMALL, 'forget') for f in fams] + [(f, 4_000, MAIN, 'drop') for f in fams]
    with ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(lambda t: one(exe, *t), tasks))
    kinds = {}
    nodes = 0
    for t, (k, why) in zip(tasks, res):
        kinds[k] = kinds.get(k, 0) + 1
        if k == 'tree':
            nodes += int(why.split('nodes=')[1].split()[0])
        if bad(k):
            r.violation(f'Deep{k}: {t[0]} x {t[1]} on a stack of {t[2]} bytes ({t[3]}): {why}', [t[0], str(t[1]), str(t[2]), t[3]], driver='deep')
    for fam, m in PROBES:
        k, why = one(exe, fam, m, MAIN, 'drop')
        if bad(k):
            r.violation(f'Deep{k}: {fam} x {m} on a stack of {MAIN} bytes (drop): {why}', [fam, str(m), str(MAIN), 'drop'], driver='deep')
    r.cov['evaluations'] += len(tasks) + len(PROBES)
    r.cov['deep_inputs'] = dict(families=len(fams), repeated=n, small_stack_bytes=SMALL, results=kinds, elements_read=nodes)
    if not kinds.get('tree'):
        raise Inconclusive('no deep tree observed')


def replay(exe, r):
    f, n, s, m = r['inputs']
    k, why = one(exe, f, int(n), int(s), m)
    return ('Judged', [f'Deep{k}: {why}'] if bad(k) else [])
