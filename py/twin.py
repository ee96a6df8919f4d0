"""Comparison of two builds (or two processes) on the same generated inputs by fingerprint."""
import os, json, subprocess, struct
from vlib import *


def read_fps(d, shard, job):
    p = os.path.join(d, f'fp{shard}.{job}')
    return open(p, 'rb').read() if os.path.exists(p) else b''


def show(exe, check, s, d):
    """(fingerprint, description) of one input in a fresh process; a crash is a result too."""
    p = os.path.join(d, 'show.in')
    with open(p, 'w', newline='', encoding='utf-8') as f:
        f.write(s)
    l = os.path.join(d, 'show.list')
    open(l, 'w').write(p + '\n')
    out = os.path.join(d, 'show.out')
    with open(out, 'wb') as o:
        rc = run_watched([exe, 'show', '--check', check, '--tier', TIER, '--seed', str(SEED), '--spec', SPEC, '--files', l], o, CONFIRM_CPU)
    if rc is None:
        return ('hang', 'hang')
    if rc != 0:
        return (f'crash {rc}', f'crash {rc}: ' + open(out, errors='replace').read()[-300:])
    fp, desc = open(out).read().strip().split(' ', 1)
    return (fp, json.loads(desc))


def first_diff(a, b):
    x, y = a.splitlines(), b.splitlines()
    for i in range(max(len(x), len(y))):
        p, q = (x[i] if i < len(x) else 'nothing'), (y[i] if i < len(y) else 'nothing')
        if p != q:
            return f'line {i}: {p} / {q}'
    return 'no difference'


def shrink(differs, s, budget=120):
    """Drops pieces of the input while the two builds still differ on it."""
    import time
    end = time.time() + 20
    size = max(1, len(s) // 2)
    while size >= 1 and budget > 0 and time.time() < end:
        i, hit = 0, False
        while i < len(s) and budget > 0 and time.time() < end:
            t = s[:i] + s[i + size:]
            budget -= 1
            if differs(t):
                s, hit = t, True
            else:
                i += size
        if not hit:
            size //= 2
    return s


def first_run(check, exe, d, builds=2, extra=()):
    """The run of one build, which may be started before the other build exists."""
    dd = os.path.join(d, 'r0')
    os.makedirs(dd, exist_ok=True)
    return Shards(exe, check, dd, budget=BUDGET / builds, extra=['--fp', '1', *extra]).run()


def compare(r, check, a, b, names, d, runs=None, first=None):
    """a, b: executables; runs both over the check's jobs. Returns (stats of a, stats of b, cases compared)."""
    runs = runs or [dict(exe=a, extra=[]), dict(exe=b, extra=[])]
    shs = []
    for k, x in enumerate(runs):
        dd = os.path.join(d, f'r{k}')
        os.makedirs(dd, exist_ok=True)
        if k == 0 and first:
            sh = first
        else:
            sh = Shards(x['exe'], check, dd, budget=BUDGET / len(runs), extra=['--fp', '1'] + x['extra']).run()
        shs.append(sh)
        for v in violations(dd):
            r.violation(v['what'], v['inputs'], workload=v['workload'], index=v['index'], build=names[k], driver='twin')
    compared = 0
    found = 0
    jobs = {}
    for p in os.listdir(shs[0].dir):
        if p.startswith('fp'):
            s, j = p[2:].split('.')
            jobs.setdefault(int(j), []).append(int(s))
    for j in sorted(jobs):
        for s in sorted(jobs[j]):
            x, y = read_fps(shs[0].dir, s, j), read_fps(shs[1].dir, s, j)
            n = min(len(x), len(y)) // 8
            if x[:8 * n] == y[:8 * n] and b'\0' * 8 not in x:
                compared += n
                continue
            for k in range(n):
                p, q = x[8 * k:8 * k + 8], y[8 * k:8 * k + 8]
                if p == b'\0' * 8 or q == b'\0' * 8:
                    continue
                compared += 1
                if p != q and found < 3:
                    found += 1
                    idx = s + k * NCPU
                    c = json.loads(subprocess.run([a, 'case'] + shs[0].base()[2:] + ['--job', str(j), '--idx', str(idx)], stdout=subprocess.PIPE, check=True).stdout)
                    inp = c['inputs'][0]

                    def differs(t):
                        return show(a, check, t, d)[0] != show(b, check, t, d)[0]
                    alone = differs(inp)
                    if alone:
                        inp = shrink(differs, inp)
                    u, v = show(a, check, inp, d), show(b, check, inp, d)
                    r.violation(f'Differ: {names[0]} / {names[1]}: {first_diff(u[1], v[1])}' + ('' if alone else ' (seen in the run, not when run alone)'),
                                [inp], workload=c['workload'], index=idx, original=c['inputs'], driver='twin')
    # a case that ends one build's process but not the other's
    bad = [{(w, i): (k, why, inp) for k, w, i, why, inp in sh.stuck} for sh in shs]
    for key in set(bad[0]) ^ set(bad[1]):
        k, why, inp = bad[0].get(key) or bad[1].get(key)
        who = names[0] if key in bad[0] else names[1]
        other = b if key in bad[0] else a
        if not show(other, check, inp[0], d)[0].startswith(('crash', 'hang')):
            r.violation(f'{k}: only in {who}: {why}', inp, workload=key[0], index=key[1], driver='twin')
    return shs, compared


def check_twin(prop, a, b, names, r=None, runs=None, extra_cov=None, check=None, d=None, first=None):
    import shutil
    d = d or scratch(prop)
    try:
        r = r or Result(prop)
        shs, compared = compare(r, check or prop, a, b, names, d, runs, first)
        st = merge(shs[0].dir)
        st2 = merge(shs[1].dir)
        r.cov = coverage(st, shs[0])
        r.cov['builds'] = list(names)
        r.cov['compared_results'] = compared
        r.cov['observed_second_build'] = st2['counts']
        r.cov.update(extra_cov or {})
        if not r.viol:
            lost = st['evals'] - compared
            if compared < 1000 or not st['counts'].get('observed.tree'):
                raise Inconclusive(f'only {compared} results compared')
            if sum(len(s.stuck) for s in shs) > 0 or sum(s.unjudged for s in shs) > 50:
                r.cov['not_compared'] = [x[:3] for s in shs for x in s.stuck]
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


def replay_pair(r, check, a, b):
    import shutil
    d = scratch('replay')
    try:
        k = []
        u, v = show(a, check, r['inputs'][0], d), show(b, check, r['inputs'][0], d)
        if u[0] != v[0]:
            k.append('Differ: ' + first_diff(u[1], v[1]))
        for e in (a, b):
            j = judge(e, check, r['inputs'], d)
            if j[0] != 'Judged':
                k.append(f'{j[0]}: {j[1]}')
            else:
                k += j[1]
        for x in k:
            print(x)
        if k:
            print(f'VIOLATION property={r["property"]} replayed')
        return 1 if k else 0
    finally:
        shutil.rmtree(d, ignore_errors=True)
