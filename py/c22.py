"""C22: instructions (cachegrind) and memory (allocation ledger) as a function of the number of repetitions."""
import json, os, random, re, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
from vlib import *

# families that lengthen one token, or repeat tokens at one level; the nesting ones and those with a capped size are left out
CAPPED = ['op_minus', 'block_nest', 'block_nest_open', 'block_siblings']
ITEMS = [  # more units: text repeated, tail
    ("select a.b, $1, 'x' || e'\\n', $$q$$ from t where not a is null;\n", ''),
    ("insert into t (a, b) values (1, 'é'), (2, '日本');\n", ''),
    ("-- only a comment\n", ''),
    ("-- only a comment\n", ' ) '),
    ("/* a *//* b */\n\n", 'select 1'),
    ("select 1; /* c */ -- d\n", 'select from from'),
    ("select 'abc';\n", "select 'open"),
    ("select $tag$ body $tag$;\n", 'select $tag$ open'),
    ("select \"Quoted Name\" from \"T\";\n", 'select "open'),
    ("select e'\\x41\\u0042';\n", "select e'\\uD800'"),
    ("create table t (a int primary key, b text not null default 'x', check (a > 0));\n", ''),
    ("create function f() returns int as $$ begin return 1; end $$ language plpgsql;\n", ''),
    ("update t set a = a + 1, b = (select max(c) from u) where d in (1, 2, 3) returning *;\n", ''),
    ("select * from a left join b on a.x = b.y order by 1 nulls first, 2 desc nulls last;\n", ''),
    ("with recursive r as (select 1 union all select n + 1 from r) select * from r;\n", ''),
    ("grant select, insert on t to public with grant option;\n", ''),
    ("select x::timestamp with time zone, y at time zone 'utc', - z;\n", ''),
    ("日本語 ", ''),
    ("select a not between 1 and 2 and b not like 'c' or d not in (1);\n", ''),
    (";", 'select 1 select'),
    ("select 1\n\n\n;\n\n\n", ''),
    ("é ", ' )'),
]
TAILCUT = re.compile(r'I refs:\s+([\d,]+)')


def corpus_units(k, rng):
    d = os.path.join(SPEC, 'corpus')
    out = []
    for f in sorted(os.listdir(d)):
        t = open(os.path.join(d, f), newline='', encoding='utf-8').read()
        for s in re.split(r'(?<=;)\s*\n\s*\n', t):
            s = s.strip()
            if s.endswith(';') and 20 < len(s) < 900:
                out.append(s + '\n')
    rng.shuffle(out)
    return out[:k]


class Unit:
    def __init__(self, name, arg, unit_len, tail=None):
        self.name, self.arg, self.len, self.tail = name, arg, unit_len, tail


def args(exe, u, n):
    return [exe, u.arg, str(n)] + ([u.tail] if u.tail else [])


def ledger(exe, u, n, cpu=400):
    out = os.path.join(BUILD, 'run', f'cost.{os.getpid()}.{u.name}.{n}')
    with open(out, 'wb') as o:
        rc = run_watched(args(exe, u, n), o, cpu, 20 << 30)
    t = open(out, errors='replace').read()
    os.unlink(out)
    if rc != 0:
        return None, rc
    return json.loads(t.strip().splitlines()[-1]), 0


def instrs(exe, u, n, cpu=600):
    out = os.path.join(BUILD, 'run', f'cg.{os.getpid()}.{u.name}.{n}')
    with open(out, 'wb') as o:
        rc = run_watched(['valgrind', '--tool=cachegrind', '--cache-sim=no', '--cachegrind-out-file=/dev/null', '--main-stacksize=16777216', *args(exe, u, n)], o, cpu, 20 << 30)
    t = open(out, errors='replace').read()
    os.unlink(out)
    m = TAILCUT.search(t)
    if rc != 0 or not m:
        return None
    return int(m.group(1).replace(',', ''))


def growth(exe, u, n):
    """Marginal instructions per repetition at n and at 4n..8n."""
    v = [instrs(exe, u, k * n) for k in (1, 2, 4, 8)]
    if None in v:
        return None
    s1, s2, s3 = (v[1] - v[0]) / n, (v[2] - v[1]) / (2 * n), (v[3] - v[2]) / (4 * n)
    return v, s1, s2, s3


def superlinear(g):
    v, s1, s2, s3 = g
    return s3 > 1.25 * s1 + 60 and s3 > 1.05 * s2


def study(exe, u, base, big):
    """What is seen for one unit: (violations, record)."""
    n = max(60, min(base, 40 * base // max(u.len, 1)))
    w = []
    rec = dict(unit=u.name, n=n)
    g = growth(exe, u, n)
    a, _ = ledger(exe, u, n)
    b, rc = ledger(exe, u, 8 * n)
    if g is None or a is None or b is None:
        return None, rec
    rec['instructions_per_unit'] = [round(x) for x in g[1:]]
    rec['peak_bytes_per_unit'] = [a['peak'] // n, b['peak'] // (8 * n)]
    if superlinear(g):
        w.append(f'Work: {u.name}: one more repetition costs {g[1]:.0f} instructions at {n}, {g[3]:.0f} at {8 * n}')
    if w:
        return w, rec
    N = max(400, big * 40 // max(u.len, 40))
    c, _ = ledger(exe, u, N)
    d, rc = ledger(exe, u, 8 * N, 900)
    if c is None or d is None:
        return None, rec
    rec['large'] = [N, 8 * N]
    rec['bytes_largest'] = d['bytes']
    for k in ('peak', 'allocated', 'calls'):
        lo = a[k] / n
        for m, x in ((8 * n, b), (N, c), (8 * N, d)):
            if x[k] / m > 3.2 * max(lo, 64 if k != 'calls' else 1):
                w.append(f'Memory: {u.name}: {k} is {lo:.0f} per repetition at {n}, {x[k] / m:.0f} at {m}')
                break
    rec['cpu_ratio_x8'] = round(d['cpu_ns'] / max(c['cpu_ns'], 1), 2)
    if c['cpu_ns'] > 2_000_000 and d['cpu_ns'] > 16 * c['cpu_ns'] and not w:
        # time is only a hint: the instruction counts of large inputs decide
        g2 = growth(exe, u, N)
        rec['large_instructions_per_unit'] = g2 and [round(x) for x in g2[1:]]
        if g2 and superlinear(g2):
            w.append(f'Work: {u.name}: one more repetition costs {g2[1]:.0f} instructions at {N}, {g2[3]:.0f} at {8 * N}')
    return w, rec


def units(exe, d, fams, rng):
    us = [Unit(f, '@' + f, 8) for f in fams]

    def textual(name, text, tail):
        p = os.path.join(d, name)
        with open(p, 'w', newline='', encoding='utf-8') as f:
            f.write(text)
        t = os.path.join(d, name + '.tail')
        with open(t, 'w', newline='', encoding='utf-8') as f:
            f.write(tail)
        return Unit(name, p, len(text.encode()), t)
    for i, (x, t) in enumerate(ITEMS):
        us.append(textual(f'item{i}', x, t))
    cu = corpus_units(120 if THOROUGH else 26, rng)
    for i, x in enumerate(cu):
        us.append(textual(f'stmt{i}', x, rng.choice(['', '', 'select from from', "select 'x"])))
    for i in range(12 if THOROUGH else 4):
        us.append(textual(f'mix{i}', ''.join(rng.sample(cu, min(5, len(cu)))) + '-- c\n/* d */\n', ''))
    return us


def exe_cost():
    td = cargo(os.path.join(VERIF, 'harness'), 'h-std', ['--release', '--bin', 'cost', '--bin', 'vw'])
    return os.path.join(td, 'release', 'cost'), os.path.join(td, 'release', 'vw')


def families(vwx):
    fams = []
    for l in subprocess.run([vwx, 'families', '--spec', SPEC], stdout=subprocess.PIPE, text=True, check=True).stdout.split():
        f, deep = l.split(':')
        if f not in CAPPED:
            fams.append(f)
    return fams


def check(prop):
    exe, vwx = exe_cost()
    d = scratch(prop)
    try:
        r = Result(prop)
        us = units(exe, d, families(vwx), random.Random(SEED))
        base, big = (1500, 16000) if not THOROUGH else (4000, 40000)
        with ThreadPoolExecutor(NCPU) as ex:
            found = []

            def one(u):
                # a tree that breaks the property makes the runs slow: a few units are enough then
                if len(found) >= 6:
                    return [], dict(unit=u.name, skipped='enough violations')
                w, rec = study(exe, u, base, big)
                found.extend(w or [])
                return w, rec
            res = list(ex.map(one, us))
        recs, lost = [], []
        for u, (w, rec) in zip(us, res):
            if w is None:
                lost.append(u.name)
                continue
            if 'skipped' not in rec:
                recs.append(rec)
            inp = [u.name] if u.arg.startswith('@') else [open(u.arg, newline='', encoding='utf-8').read(), open(u.tail, newline='', encoding='utf-8').read()]
            for x in w:
                r.violation(x, inp, n=rec['n'], family=u.arg.startswith('@'))
        r.cov = dict(evaluations=len(us), distinct_nontrivial=len(recs),
                     rule='one case is a unit (list item, term, statement, comment, piece of a literal or name, error after a long prefix) repeated n, 2n, 4n, 8n times under cachegrind and n, 8n, N, 8N times under the allocation ledger; non-trivial: all measurements were made',
                     samples=recs[:8], growth_of_marginal_cost_max=round(max((x['instructions_per_unit'][2] / max(x['instructions_per_unit'][0], 40) for x in recs if 'instructions_per_unit' in x), default=0), 3),
                     cpu_ratio_x8_max=max((x.get('cpu_ratio_x8', 0) for x in recs), default=0), largest_input_bytes=max((x.get('bytes_largest', 0) for x in recs), default=0), not_measured=lost, all=recs)
        r.assume = ['Quadratic terms that stay below 25% of the linear cost at the sizes run are not seen.', 'Nested block comments and runs of adjacent operator characters are not scaled: the flex rules themselves (match long, then give back) are not linear there.']
        if not r.viol and (len(lost) > 5 or len(recs) < 30):
            raise Inconclusive(f'not measured: {lost}')
        return r.finish()
    finally:
        shutil.rmtree(d, ignore_errors=True)


def replay(r):
    exe, vwx = exe_cost()
    d = scratch('replay')
    try:
        if r['family']:
            u = Unit(r['inputs'][0], '@' + r['inputs'][0], 8)
        else:
            for k, s in enumerate(r['inputs']):
                with open(os.path.join(d, f'x{k}'), 'w', newline='', encoding='utf-8') as f:
                    f.write(s)
            u = Unit('replayed', os.path.join(d, 'x0'), len(r['inputs'][0].encode()), os.path.join(d, 'x1'))
        w, rec = study(exe, u, 1500, 16000)
        print(w, rec)
        if w:
            print('VIOLATION property=C22 replayed')
        return 1 if w else 0
    finally:
        shutil.rmtree(d, ignore_errors=True)
