"""Checks whose monitor lives in the harness (vw): run the shards, then judge what they saw."""
import os, shutil
from vlib import *

# classes of trouble that are a violation of the property itself, not just of C01
CRASH_COUNTS = {'C01', 'C04', 'C06', 'C08', 'C09', 'C10', 'C19', 'C20', 'C21', 'C23'}
# counters that must not be empty, or nothing was observed
NEED = {
    'C01': ['observed.tree', 'observed.syntax_error', 'observed.lexical_report'],
    'C02': ['observed.tokens'],
    'C03': ['observed.tree'], 'C04': ['model.accept', 'model.syntax_error'], 'C06': ['model.lexical_error', 'model.accept'],
    'C07': [], 'C08': ['model.syntax_error', 'model.lexical_error'], 'C09': ['seen.NOT_LA', 'seen.plain_NOT'],
}
ASSUME = [
    'The reference is PostgreSQL as pinned in /verif/spec: gram.y, kwlist.h, and LALR tables made from gram.y by bison; the scanner model in core/src/scan.rs was written from scan.l by hand.',
    'The verdict covers the inputs generated in this run, not all inputs.',
]


def check(prop):
    exe = vw('std')
    d = scratch(prop)
    try:
        sh = Shards(exe, prop, d)
        sh.stop_on_hang = prop in CRASH_COUNTS
        sh.run()
        r = Result(prop)
        for v in violations(d):
            r.violation(v['what'], v['inputs'], workload=v['workload'], index=v['index'], original=v['original'])
        for kind, wl, idx, why, inputs in sh.stuck:
            if prop in CRASH_COUNTS:
                r.violation(f'{kind}: {why}', inputs, workload=wl, index=idx)
            else:
                sh.unjudged += 1
        st = merge(d)
        r.cov = coverage(st, sh)
        r.assume = ASSUME
        if prop == 'C01':
            import deep
            deep.add(exe, d, r)
        if prop == 'C10':
            # the same inputs in two processes that walk them in opposite orders
            import twin
            d2 = os.path.join(d, 'processes')
            os.makedirs(d2)
            runs = [dict(exe=exe, extra=[]), dict(exe=exe, extra=['--reverse', '1'])]
            _, n = twin.compare(r, 'C10X', exe, exe, ('forward order', 'backward order'), d2, runs)
            r.cov['compared_across_processes'] = n
            if not r.viol and n < 1000:
                raise Inconclusive(f'only {n} results compared across processes')
        r.cov['evaluations'] = max(r.cov['evaluations'], 0)
        if not r.viol:
            if sh.unjudged > 50 or (sh.unjudged and st['evals'] < 1000):
                raise Inconclusive(f'{sh.unjudged} cases could not be judged')
            for k in NEED.get(prop, []):
                if not st['counts'].get(k):
                    raise Inconclusive(f'nothing observed under {k}')
            if st['distinct'] < 100:
                raise Inconclusive(f'only {st["distinct"]} distinct cases')
        return r.finish()
    finally:
        shutil.rmtree(d, ignore_errors=True)


def replay(r):
    exe = vw('std')
    d = scratch('replay')
    try:
        if r.get('driver') == 'deep':
            import deep
            k = deep.replay(exe, r)
        elif r.get('driver') == 'twin':
            import twin
            return twin.replay_pair(r, 'C10X', exe, exe)
        else:
            k = judge(exe, r['property'], r['inputs'], d)
        print(k)
        bad = k[0] != 'Judged' or bool(k[1])
        if bad:
            print(f'VIOLATION property={r["property"]} replayed')
        return 1 if bad else 0
    finally:
        shutil.rmtree(d, ignore_errors=True)
