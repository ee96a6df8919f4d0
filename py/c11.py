"""C11: the library under AddressSanitizer, LeakSanitizer, MemorySanitizer with checked unsafe preconditions, ThreadSanitizer, Miri and an allocation ledger."""
import json, os, re, shutil, struct, subprocess, threading, time
from concurrent.futures import ThreadPoolExecutor
from vlib import *

TARGET = 'x86_64-unknown-linux-gnu'
HD = os.path.join(VERIF, 'harness')
MIX = 'soup,bytes,gram.wild,mutate.wild,cmut,trunc,glyphs,contin,keywords,tails,corpus,spaced,soup.wild,la.rand,rules.wild'
PLAIN = 'rules.plain,gram.plain,soup,mutate.plain,bytes,corpus'
# inputs that every Miri run starts with: one for each kind of token, error and trivia
MIRI_FIXED = [
    'select 1', "select 'x", 'select )', "-- c\nselect /* é */ 1", "select e'\\n\\x41\\u0042' || U&'\\0061'", 'select $$a$$, $t$b$t$',
    'select "A", U&"\\0061", é, 日', "select 0x1F, 0b1, 0o7, 1_0, 1.5e3, $1", "select x'1F', b'01', n'z'", "select 'a'\n'b'", "select e'\\uD83D\\uDE00'",
    "select e'\\uD800'", 'select 1a', 'select a not in (1)', 'select nulls from t order by a nulls first', "select a::time with time zone", 'select a @>- b',
    'select 1; select 2;', '', ';', '\u00e9 \U0001F600 )', "select U&'\\zz'", 'select $99999999999', '/* open', '\0', 'select a[1:2].b <> all(c)',
    "insert into t values (1)", 'create table t (a int)', 'select $a$ open', '"open',
]


def sanitized(kind):
    td = cargo(HD, 'h-' + kind, ['--release', '--bin', 'mem', '-Zbuild-std', '--target', TARGET], toolchain='nightly',
               env=dict(RUSTFLAGS=f'-Zsanitizer={kind} -Cdebuginfo=line-tables-only' + (' -Cunsafe-allow-abi-mismatch=sanitizer' if kind != 'address' else '') + (' -Zub-checks=yes' if kind == 'memory' else '')))
    return os.path.join(td, TARGET, 'release', 'mem')


def pack(path, inputs):
    with open(path, 'wb') as f:
        for s in inputs:
            b = s.encode()
            f.write(struct.pack('<I', len(b)) + b)


def unpack(path):
    b = open(path, 'rb').read()
    i, v = 0, []
    while i + 4 <= len(b):
        n = struct.unpack('<I', b[i:i + 4])[0]
        v.append(b[i + 4:i + 4 + n].decode())
        i += 4 + n
    return v


def emit(vwx, path, wl, n, mx, stream, mn=0):
    subprocess.run([vwx, 'emit', '--wl', wl, '--n', str(n), '--max', str(mx), '--min', str(mn), '--stream', str(stream), '--seed', str(SEED), '--spec', SPEC, '--tier', 'quick', '--out', path],
                   check=True, stdout=subprocess.DEVNULL)


ENVS = {
    'address': dict(ASAN_OPTIONS='detect_leaks=1:halt_on_error=1:exitcode=97:detect_stack_use_after_return=1:allocator_may_return_null=1:symbolize=1'),
    'memory': dict(MSAN_OPTIONS='halt_on_error=1:exitcode=97:symbolize=1'),
    'thread': dict(TSAN_OPTIONS='halt_on_error=1:exitcode=97:second_deadlock_stack=1'),
}
# only a report of the tool itself is a violation
REPORT = re.compile(r'(ERROR: (?:AddressSanitizer|LeakSanitizer)[^\n]*|WARNING: (?:Thread|Memory)Sanitizer[^\n]*|unsafe precondition\(s\) violated[^\n]*|error: Undefined Behavior[^\n]*|error: memory leaked[^\n]*|'
                    r'error: the evaluated program leaked[^\n]*|AddressSanitizer:DEADLYSIGNAL|Data race detected[^\n]*|two readers saw different content[^\n]*|clone reads differently[^\n]*)')


def execute(cmd, env, out, cpu):
    e = dict(os.environ, **env)
    with open(out, 'wb') as o:
        p = subprocess.Popen(cmd, stdout=o, stderr=o, stdin=subprocess.DEVNULL, env=e, preexec_fn=lambda: os.setpgid(0, 0))
        wall = time.time()
        while p.poll() is None:
            time.sleep(0.05)
            c = cpu_time(p.pid)
            if (c or 0) > cpu or time.time() - wall > 2 * cpu + 120:
                os.killpg(p.pid, 9)
                p.wait()
                return None, open(out, errors='replace').read()
    return p.returncode, open(out, errors='replace').read()


def report(txt):
    m = REPORT.search(txt)
    if not m:
        return None
    frames = re.findall(r'#\d+ 0x[0-9a-f]+ in ([^\n]{0,160})', txt)
    own = next((f for f in frames if 'postgresql_cst_parser' in f or '/repo/' in f), frames[0] if frames else '')
    return (m.group(1) + (' in ' + own if own else ''))[:500]


class Tool:
    """One instrumented build with the way to run it."""

    def __init__(self, name, cmd, env, cpu):
        self.name, self.cmd, self.env, self.cpu = name, cmd, env, cpu

    def run(self, path, args, out):
        return execute(self.cmd + [path] + args, self.env, out, self.cpu)


def locate(tool, inputs, args, d, k, pos=None):
    """The first input that makes the tool report, alone (None: only in company)."""
    order = list(range(len(inputs)))
    if pos is not None and pos < len(inputs):
        order = [pos]
    if len(order) > 200:
        return None
    p = os.path.join(d, f'loc{k}')
    for i in order:
        pack(p, [inputs[i]])
        rc, txt = tool.run(p, args, p + '.out')
        if rc and report(txt):
            return inputs[i]
    return None


def job_plain(tool, path, d, k, n, r, seen):
    """Runs 'plain' on a file of inputs, restarting behind inputs on which the library itself panics."""
    inputs = unpack(path)
    start, done = 0, 0
    unjudged = 0
    for attempt in range(30):
        p = os.path.join(d, f'{tool.name}.{k}.in')
        pos = os.path.join(d, f'{tool.name}.{k}.pos')
        if os.path.exists(pos):
            os.unlink(pos)
        pack(p, inputs[start:])
        rc, txt = tool.run(p, ['plain', str(n), pos], p + '.out')
        at = struct.unpack('<Q', open(pos, 'rb').read(8))[0] if os.path.exists(pos) and os.path.getsize(pos) >= 8 else None
        rep = report(txt) if rc else None
        if rc == 0:
            done += len(inputs) - start
            break
        here = start + (at or 0)
        done += here - start
        if rep:
            alone = locate(tool, inputs, ['plain', str(n), pos], d, k, here)
            r.violation(f'{tool.name}: {rep}' + ('' if alone is not None else ' (reported in a longer run)'), [alone if alone is not None else inputs[min(here, len(inputs) - 1)]], tool=tool.name, mode='plain')
            seen['reports'] = seen.get('reports', 0) + 1
            if seen['reports'] > 4:
                break
        else:
            unjudged += 1  # a panic or a timeout: not this property's business
            log(f'{tool.name}: unjudged input (rc {rc}): {txt[-200:]}')
        start = here + 1
        if start >= len(inputs):
            break
    return done, unjudged


def miri_tool(shared=False):
    # Trees shared between threads are read under Miri's race detector without its (experimental) aliasing model:
    # cstree creates children lazily behind a lock by re-borrowing slots mutably, which that model objects to (see DESIGN.md).
    env = dict(MIRIFLAGS='-Zmiri-disable-isolation' + (' -Zmiri-disable-stacked-borrows' if shared else ''), CARGO_TARGET_DIR=os.path.join(BUILD, 'h-miri'), CARGO_NET_OFFLINE='true')
    return Tool('miri', ['cargo', '+nightly', 'miri', 'run', '-q', '--release', '--offline', '--manifest-path', os.path.join(HD, 'Cargo.toml'), '--bin', 'mem', '--'], env, 1000)


def check(prop):
    r = Result(prop)
    d = scratch(prop)
    try:
        vwx = vw('std')
        cargo(HD, 'h-std', ['--release', '--bin', 'mem'])
        native = Tool('ledger', [os.path.join(BUILD, 'h-std', 'release', 'mem')], {}, 900)
        builds = {}

        def build(k):
            try:
                builds[k] = sanitized(k)
            except Exception as e:
                builds[k] = e
        ths = [threading.Thread(target=build, args=(k,)) for k in ('address', 'memory', 'thread')]
        for t in ths:
            t.start()
        # Miri's build and a first run
        mt = miri_tool()
        p0 = os.path.join(d, 'miri0')
        pack(p0, [';'])
        rc, txt = mt.run(p0, ['plain', '1'], p0 + '.out')
        for t in ths:
            t.join()
        for k, v in builds.items():
            if isinstance(v, Exception):
                raise v
        if rc and not report(txt):
            log(txt[-2000:])
            raise Inconclusive('Miri does not run')
        if rc:
            r.violation(f'miri: {report(txt)}', [';'], tool='miri', mode='plain')
        asan = Tool('address', [builds['address']], ENVS['address'], 900)
        msan = Tool('memory', [builds['memory']], ENVS['memory'], 900)
        tsan = Tool('thread', [builds['thread']], ENVS['thread'], 900)
        T = THOROUGH
        cov = dict(cases={}, unjudged=0)
        seen = {}
        samples = []

        def mark(k, n, u=0):
            cov['cases'][k] = cov['cases'].get(k, 0) + n
            cov['unjudged'] += u

        # --- ledger
        def ledger(k):
            p = os.path.join(d, f'led{k}')
            emit(vwx, p, MIX, 60_000 if T else 12_000, 20_000, 100 + k)
            rc, txt = native.run(p, ['ledger', '1'], p + '.out')
            try:
                j = json.loads(txt.strip().splitlines()[-1])
            except Exception:
                return mark('ledger', 0, 1)
            ins = unpack(p)
            samples.extend(x[:120] for x in ins[3:6])
            mark('ledger', j['cases'])
            cov['allocations'] = cov.get('allocations', 0) + j['allocations']
            for i, b, blk in j['leaks'][:2]:
                r.violation(f'ledger: {b} bytes in {blk} blocks still held after the result was dropped, every time', [ins[i]], tool='ledger', mode='ledger')
            if not j['leaks'] and j['held_at_end'] > 1 << 20 and j['first_time_growth'] * 5 > j['cases']:
                r.violation(f"ledger: {j['held_at_end']} bytes held after {j['cases']} results were dropped; {j['first_time_growth']} parses left something behind", ins[:50], tool='ledger', mode='ledger')

        # --- address sanitizer, with leak detection at exit
        def address(k):
            p = os.path.join(d, f'asan{k}')
            emit(vwx, p, MIX, 80_000 if T else 9_000, 20_000, 200 + k)
            mark('address', *job_plain(asan, p, d, k, 1, r, seen))

        def memory(k):
            p = os.path.join(d, f'msan{k}')
            emit(vwx, p, MIX + ',comments,rules.spelled', 80_000 if T else 9_000, 20_000, 250 + k)
            mark('memory', *job_plain(msan, p, d, 30 + k, 1, r, seen))

        def address_big(k):
            p = os.path.join(d, f'asanb{k}')
            emit(vwx, p, 'sizes,corpus', 1500 if T else 150, 200_000, 300 + k, 2000)
            mark('address_large_inputs', *job_plain(asan, p, d, 50 + k, 1, r, seen))

        # --- thread sanitizer and, with the same workload, address sanitizer
        def threaded(tool, k, nthreads, n, rounds):
            p = os.path.join(d, f'thr{tool.name}{k}')
            emit(vwx, p, PLAIN + ',gram.wild', n, 1500, 400 + k)
            rc, txt = tool.run(p, ['threads', str(nthreads), str(rounds)], p + '.out')
            if rc == 0:
                j = json.loads(txt.strip().splitlines()[-1])
                mark(f'{tool.name}_shared_trees', j['trees'])
                mark(f'{tool.name}_concurrent_reads', j['reads'])
                return
            rep = report(txt)
            if rep:
                r.violation(f'{tool.name}: {rep}', unpack(p)[:nthreads * 4], tool=tool.name, mode='threads')
            else:
                log(txt[-800:])
                mark(f'{tool.name}_shared_trees', 0, 1)

        # --- thread sanitizer on processes in which all threads make their first call at once
        def fresh(k, starts):
            p = os.path.join(d, f'fresh{k}')
            emit(vwx, p, MIX, starts * 6, 200, 600 + k)
            ins = unpack(p)
            for i in range(starts):
                pack(p, ins[i * 6:i * 6 + 6])
                rc, txt = tsan.run(p, ['private', str(2 + (i + k) % 7)], p + '.out')
                rep = report(txt) if rc else None
                mark('thread_first_calls', 1 if rc == 0 else 0, 1 if rc and not rep else 0)
                if rep:
                    r.violation(f'thread: {rep}', ins[i * 6:i * 6 + 6], tool='thread', mode='private')
                    break

        # --- Miri
        mshared = miri_tool(True)

        def miri(k, inputs, args):
            mt_ = mshared if args[0] == 'threads' else mt
            p = os.path.join(d, f'miri{k}')
            pack(p, inputs)
            rc, txt = mt_.run(p, args, p + '.out')
            if rc == 0:
                mark('miri' if args[0] == 'plain' else 'miri_threads_' + args[0], len(inputs))
                return
            rep = report(txt)
            if rep:
                m = re.search(r'-->\s*([^\n]+)', txt)
                r.violation(f'miri: {rep} {m.group(1) if m else ""}', inputs, tool='miri', mode=args[0])
            else:
                # a panic on one of them, or out of time: one by one
                for x in inputs[:6] if len(inputs) > 1 else []:
                    miri(f'{k}.{inputs.index(x)}', [x], args)
                if len(inputs) == 1:
                    log(f'miri: unjudged {inputs[0]!r} rc {rc} {txt[-300:]}')
                    mark('miri', 0, 1)

        p = os.path.join(d, 'mirigen')
        emit(vwx, p, 'soup,bytes,glyphs,contin,tails', 400 if T else 30, 24, 500)
        gen = [x for x in unpack(p) if x.strip()]
        samples.extend(gen[:4])
        mi = MIRI_FIXED + gen
        groups = [mi[i::16] for i in range(16)] if not T else [mi[i::64] for i in range(64)]
        # the longest first
        jobs = [lambda: miri('t0', ['select 1, a', 'select )'], ['threads', '2', '1']), lambda: miri('t1', ["select 'x' /* c */"], ['threads', '3', '1']),
                 lambda: miri('t2', ['select 1', 'select )'], ['private', '2']), lambda: miri('t3', ["x'", '$1', ';'], ['private', '3'])]
        jobs += [lambda k=k, g=g: miri(k, g, ['plain', '1']) for k, g in enumerate(groups)]
        jobs += [lambda k=k: ledger(k) for k in range(8)]
        jobs += [lambda k=k: address(k) for k in range(8)]
        jobs += [lambda k=k: memory(k) for k in range(8)]
        jobs += [lambda k=k: address_big(k) for k in range(2)]
        jobs += [lambda k=k: threaded(tsan, k, [2, 4, 8, 3][k % 4], 4000 if T else 350, 3 if T else 1) for k in range(4)]
        jobs += [lambda k=k: threaded(asan, 10 + k, 6, 2000 if T else 250, 1) for k in range(2)]
        jobs += [lambda k=k: fresh(k, 200 if T else 20) for k in range(4)]
        end = time.time() + BUDGET

        def guard(j):
            if time.time() > end:
                cov['cut_short_by_time'] = cov.get('cut_short_by_time', 0) + 1
                return
            j()
        with ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(guard, jobs))
        total = sum(v for k, v in cov['cases'].items() if 'reads' not in k)
        r.cov = dict(evaluations=total, distinct_nontrivial=total - cov['unjudged'], rule='one case is one input parsed, read in several ways, cloned and dropped under one tool (inputs differ per tool and shard); '
                     'a shared tree is one read, cloned and dropped by several threads at once; non-trivial: the tool ran it to its end', samples=samples[:10], **cov)
        r.assume = ['A clean run speaks for the executions made: no report on these inputs, not absence of errors on others.',
                    'std is rebuilt with the same instrumentation (-Zbuild-std); the MemorySanitizer build also checks the preconditions of std\'s unsafe functions; Miri checks Stacked Borrows, validity, data races and leaks (trees shared between threads: without Stacked Borrows).']
        if not r.viol:
            for k in ('ledger', 'address', 'memory', 'thread_shared_trees', 'thread_first_calls', 'miri'):
                if not cov['cases'].get(k):
                    raise Inconclusive(f'nothing ran under {k}')
            if cov['unjudged'] > 50:
                raise Inconclusive(f'{cov["unjudged"]} unjudged')
        return r.finish()
    finally:
        shutil.rmtree(d, ignore_errors=True)


def replay(r):
    d = scratch('replay')
    try:
        t = r['tool']
        if t == 'miri':
            tool = miri_tool(r['mode'] == 'threads')
        elif t == 'ledger':
            tool = Tool('ledger', [os.path.join(cargo(HD, 'h-std', ['--release', '--bin', 'mem']), 'release', 'mem')], {}, 900)
        else:
            tool = Tool(t, [sanitized(t)], ENVS[t], 900)
        p = os.path.join(d, 'in')
        pack(p, r['inputs'])
        rc, txt = tool.run(p, [r['mode'], '4', '20'] if r['mode'] == 'threads' else [r['mode'], '3' if r['mode'] == 'private' else '1'], p + '.out')
        print(txt[-3000:])
        bad = bool(report(txt)) if t != 'ledger' else (rc != 0 or json.loads(txt.strip().splitlines()[-1])['leaks'])
        if bad:
            print('VIOLATION property=C11 replayed')
        return 1 if bad else 0
    finally:
        shutil.rmtree(d, ignore_errors=True)
