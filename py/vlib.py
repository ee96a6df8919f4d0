"""Shared parts of the checks: building, running shards under watch, known findings, evidence, verdicts."""
import fcntl, glob, hashlib, json, os, resource, shutil, signal, struct, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BUILD = os.path.join(VERIF, '.build')
SPEC = os.path.join(VERIF, 'spec')
NCPU = max(1, len(os.sched_getaffinity(0)))
SEED = int(os.environ.get('VERIF_SEED', '1'))
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
# seconds a check may spend on its workload (building comes on top)
BUDGET = float(os.environ.get('VERIF_BUDGET', '2400' if THOROUGH else '420'))
T0 = time.time()
CLK = os.sysconf('SC_CLK_TCK')


class Inconclusive(Exception):
    """Neither held nor violated: the check could not observe what it needs."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def scratch(name):
    d = os.path.join(BUILD, 'run', f'{name}.{os.getpid()}')
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def cargo(crate_dir, target, args=(), toolchain=None, env=None, timeout=1500, cmd='build'):
    """Builds a crate into .build/<target>; returns the target directory."""
    td = os.path.join(BUILD, target)
    os.makedirs(td, exist_ok=True)
    e = dict(os.environ, CARGO_TARGET_DIR=td, CARGO_TERM_COLOR='never', CARGO_NET_OFFLINE='true')
    e.pop('RUSTFLAGS', None)
    e.pop('RUSTC_WRAPPER', None)
    e.update(env or {})
    c = ['cargo'] + ([f'+{toolchain}'] if toolchain else []) + [cmd, '--offline', *args]
    t = time.time()
    with open(os.path.join(BUILD, target + '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        p = subprocess.run(c, cwd=crate_dir, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if p.returncode:
        log(p.stdout[-6000:])
        raise Inconclusive(f'build failed: {" ".join(c)} in {crate_dir}')
    log(f'built {target} in {time.time() - t:.1f}s')
    return td


VARIANTS = {
    'std': ('harness', []),
    'keep': ('harness', ['--no-default-features', '--features', 'keep-build']),
    'regex': ('harness', ['--no-default-features', '--features', 'std-build,regex-build']),
}


def vw(variant='std'):
    crate, feats = VARIANTS[variant]
    td = cargo(os.path.join(VERIF, crate), 'h-' + variant, ['--release', '--bin', 'vw', *feats])
    return os.path.join(td, 'release', 'vw')


# ------------------------------------------------------------------ running shards

def _limits(mem):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        os.setpgid(0, 0)
    return f


def cpu_time(pid):
    """CPU seconds used by one of our own child processes."""
    try:
        with open(f'/proc/{pid}/stat') as f:
            v = f.read().rsplit(')', 1)[1].split()
        return (int(v[11]) + int(v[12])) / CLK
    except OSError:
        return None


MEM = 6 << 30
HANG_CPU = 100.0     # CPU seconds on one case before it counts as stuck
CONFIRM_CPU = 250.0  # CPU seconds it gets when run again alone


def spawn(cmd, out, mem=MEM):
    return subprocess.Popen(cmd, stdout=out, stderr=out, stdin=subprocess.DEVNULL, preexec_fn=_limits(mem))


def run_watched(cmd, out, cpu_limit, mem=MEM):
    """Runs one process with a CPU limit. Returns (returncode or None when stopped)."""
    p = spawn(cmd, out, mem)
    wall = time.time()
    while p.poll() is None:
        time.sleep(0.05)
        c = cpu_time(p.pid)
        if (c is not None and c > cpu_limit) or time.time() - wall > 4 * cpu_limit:
            p.kill()
            p.wait()
            return None
    return p.returncode


class Shards:
    """Runs all shards of a check, restarting after crashes and stuck cases."""

    def __init__(self, exe, check, d, budget=None, mode='shard', extra=(), only=None):
        self.exe, self.check, self.dir = exe, check, d
        self.mode, self.extra = mode, list(extra)
        self.budget = budget or BUDGET
        self.n = NCPU
        self.stuck = []     # (kind, job, idx, detail)
        self.unjudged = 0
        self.stop_on_hang = False   # a confirmed hang is a verdict: no need for the rest

    def hung(self):
        return any(x[0] == 'Hang' for x in self.stuck)

    def base(self):
        return [self.exe, self.mode, '--check', self.check, '--tier', TIER, '--seed', str(SEED), '--spec', SPEC]

    def run(self):
        end = time.time() + self.budget
        procs = {}
        outs = {i: open(os.path.join(self.dir, f'out{i}'), 'ab') for i in range(self.n)}
        restarts = {i: 0 for i in range(self.n)}

        def start(i, job, idx):
            left = max(1, int(end - time.time()))
            p = os.path.join(self.dir, f'pos{i}')
            with open(p, 'wb') as f:
                f.write(struct.pack('<QQ', job, idx))
            procs[i] = dict(p=spawn(self.base() + ['--shard', str(i), '--of', str(self.n), '--from-job', str(job), '--from-idx', str(idx),
                                                   '--dir', self.dir, '--deadline', str(left)] + self.extra, outs[i]),
                            pos=None, cpu=0.0)

        def pos(i):
            with open(os.path.join(self.dir, f'pos{i}'), 'rb') as f:
                return struct.unpack('<QQ', f.read(16))

        for i in range(self.n):
            start(i, 0, 0)
        while procs:
            if self.stop_on_hang and self.hung():
                for s in procs.values():
                    s['p'].kill()
                    s['p'].wait()
                break
            time.sleep(0.1)
            for i in list(procs):
                s = procs[i]
                rc = s['p'].poll()
                here = pos(i)
                if rc is None:
                    c = cpu_time(s['p'].pid)
                    if c is None:
                        continue
                    if here != s['pos']:
                        s['pos'], s['cpu'] = here, c
                    elif c - s['cpu'] > HANG_CPU:
                        s['p'].kill()
                        s['p'].wait()
                        del procs[i]
                        self.trouble('Hang', here, f'no result after {HANG_CPU:.0f} s of CPU time')
                        self.again(i, here, restarts, start, end)
                    continue
                del procs[i]
                if here == (2**64 - 1, 2**64 - 1) and rc == 0:
                    continue
                why = f'signal {-rc} ({signal.Signals(-rc).name})' if rc < 0 else f'exit status {rc}'
                self.trouble('Crash', here, why)
                self.again(i, here, restarts, start, end)
        for f in outs.values():
            f.close()
        return self

    def again(self, i, here, restarts, start, end):
        restarts[i] += 1
        if restarts[i] > 8 or time.time() > end or len(self.stuck) > 24:
            return
        start(i, here[0], here[1] + 1)

    def trouble(self, kind, here, why):
        """A case that ended the process: run it alone to see whether it does so by itself."""
        job, idx = here
        if job == 2**64 - 1:
            self.unjudged += 1
            return
        try:
            c = json.loads(subprocess.run([self.exe, 'case'] + self.base()[2:] + ['--job', str(job), '--idx', str(idx)], stdout=subprocess.PIPE,
                                          timeout=300).stdout)
        except Exception as e:
            self.unjudged += 1
            log('case could not be regenerated:', here, e)
            return
        if len([x for x in self.stuck if x[0] == kind]) >= 6 or (kind == 'Hang' and self.hung()):
            self.unjudged += 1
            return
        r = judge(self.exe, self.check, c['inputs'], self.dir, raw=True)
        if r[0] in ('Crash', 'Hang'):
            self.stuck.append((r[0], c['workload'], idx, r[1], c['inputs']))
        else:
            self.unjudged += 1
            log(f'{kind} ({why}) at {c["workload"]}:{idx} did not recur when run alone')


def judge(exe, check, inputs, d, raw=False):
    """Runs a check's monitor on given inputs in a fresh process."""
    paths = []
    for k, s in enumerate(inputs):
        p = os.path.join(d, f'in.{os.getpid()}.{k}')
        with open(p, 'w', newline='', encoding='utf-8', errors='surrogatepass') as f:
            f.write(s)
        paths.append(p)
    lst = os.path.join(d, f'list.{os.getpid()}')
    with open(lst, 'w') as f:
        f.write('\n'.join(paths) + '\n')
    out = os.path.join(d, f'judge.{os.getpid()}')
    with open(out, 'wb') as o:
        rc = run_watched([exe, 'judge', '--check', check, '--tier', TIER, '--seed', str(SEED), '--spec', SPEC, '--files', lst], o, CONFIRM_CPU)
    if rc is None:
        return ('Hang', f'no result after {CONFIRM_CPU:.0f} s of CPU time when run alone')
    txt = open(out, errors='replace').read()
    if rc < 0:
        why = f'signal {-rc} ({signal.Signals(-rc).name}): {txt.strip()[-300:]}'
        return ('Crash', why)
    if rc:
        return ('Crash', f'exit status {rc}: {txt.strip()[-300:]}')
    return ('Judged', json.loads(txt.strip().splitlines()[-1]))


def violations(d):
    r = []
    for f in sorted(glob.glob(os.path.join(d, 'viol*.jsonl'))):
        for l in open(f):
            l = l.strip()
            if l:
                r.append(json.loads(l))
    return r


def u64s(path):
    with open(path, 'rb') as f:
        b = f.read()
    return struct.unpack(f'<{len(b) // 8}Q', b)


def merge(d):
    """Adds up what the shards observed."""
    st = dict(evals=0, counts={}, samples=[], rule='')
    distinct = set()
    cover = None
    rules = None
    for f in sorted(glob.glob(os.path.join(d, 'stats*.json'))):
        s = json.load(open(f))
        st['evals'] += s['evals']
        st['rule'] = s['rule']
        for k, v in s['counts'].items():
            st['counts'][k] = max(st['counts'].get(k, 0), v) if k.startswith('max.') else st['counts'].get(k, 0) + v
        st['samples'] += s['samples'][:2]
        sfx = os.path.basename(f)[5:-5]
        distinct.update(u64s(os.path.join(d, 'distinct' + sfx)))
        c = int.from_bytes(open(os.path.join(d, 'cover' + sfx), 'rb').read(), 'little')
        cover = c if cover is None else cover | c
        r = u64s(os.path.join(d, 'rules' + sfx))
        rules = [a | b for a, b in zip(rules, r)] if rules else list(r)
    st['distinct'] = len(distinct)
    if cover:
        st['counts']['automaton_cells_consulted'] = bin(cover).count('1')
    if rules and any(rules):
        st['counts']['productions_used'] = sum(1 for x in rules if x)
        st['counts']['productions_total'] = len(rules)
    return st


# ------------------------------------------------------------------ verdicts

def known():
    with open(os.path.join(VERIF, 'known_findings.json')) as f:
        return json.load(f)['findings']


def match_known(prop, what, inputs):
    cls = what.split(':')[0]
    for k in known():
        if k.get('status') == 'open' and k['property'] == prop and k.get('class') == cls and k.get('inputs') == inputs:
            return k
    return None


class Result:
    def __init__(self, prop, level='exploration'):
        self.prop, self.level = prop, level
        self.viol, self.found = [], []
        self.cov = {}
        self.assume = []

    def violation(self, what, inputs, **more):
        k = match_known(self.prop, what, inputs)
        if k:
            if k['id'] not in [x['id'] for x in self.found]:
                self.found.append(k)
            return
        self.viol.append(dict(what=what, inputs=inputs, **more))

    def finish(self):
        rp = os.path.join(VERIF, 'replays')
        os.makedirs(rp, exist_ok=True)
        lines = []
        for n, v in enumerate(self.viol[:20]):
            h = hashlib.sha256(json.dumps(v, sort_keys=True).encode()).hexdigest()[:10]
            p = os.path.join(rp, f'{self.prop}-{h}.json')
            with open(p, 'w') as f:
                json.dump(dict(property=self.prop, tier=TIER, seed=SEED, **v), f, indent=1)
            lines.append((p, v))
        ev = dict(property=self.prop, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED, level=self.level, coverage=self.cov,
                  assumptions=self.assume, wall_s=round(time.time() - T0, 2), violations=len(self.viol))
        if self.found:
            ev['coverage']['known_findings_seen'] = [k['id'] for k in self.found]
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, ensure_ascii=True)
        for k in self.found:
            print(f'KNOWN-FINDING: property={self.prop} {k["what"]}')
        for p, v in lines:
            print(f'  {v["what"][:600]}')
            print(f'VIOLATION property={self.prop} replay={p}')
        if not lines:
            print(f'{self.prop}: held on {self.cov.get("evaluations", "?")} cases ({self.cov.get("distinct_nontrivial", "?")} distinct non-trivial), {time.time() - T0:.0f} s')
        sys.stdout.flush()
        return 1 if lines else 0


def coverage(st, sh):
    c = dict(evaluations=st['evals'], distinct_nontrivial=st['distinct'], rule=st['rule'], samples=(st['samples'] or ['none'])[:12])
    c['observed'] = dict(sorted(st['counts'].items()))
    c['unjudged_cases'] = sh.unjudged if sh else 0
    return c
