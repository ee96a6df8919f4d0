"""C18: scanners generated from random flex files, against what flex and the rule-selection model do with the same files."""
import os, shutil, struct, subprocess, threading, time
from concurrent.futures import ThreadPoolExecutor
from vlib import *
import regen

CRATE = os.path.join(VERIF, 'autom')
TPL = os.path.join(VERIF, 'py', 'scanner')


def gen_exe():
    return os.path.join(cargo(CRATE, 'h-autom', ['--release', '--bin', 'flexgen']), 'release', 'flexgen')


def sh(cmd, cwd, timeout=300, env=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout, env=dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', **(env or {})))
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return None, 'timeout'


class Worker:
    """A copy of the repository with its own generator build and scanner crate."""

    def __init__(self, d):
        self.d, self.repo, self.gt, self.st = d, os.path.join(d, 'repo'), os.path.join(d, 'gt'), os.path.join(d, 'st')
        self.crate = os.path.join(d, 'scanner')

    def prepare(self):
        regen.copy_repo(self.repo)
        if os.path.exists(os.path.join(REPO, 'Cargo.lock')):
            shutil.copy(os.path.join(REPO, 'Cargo.lock'), self.repo)
        os.makedirs(os.path.join(self.crate, 'src'), exist_ok=True)
        shutil.copy(os.path.join(TPL, 'Cargo.toml.in'), os.path.join(self.crate, 'Cargo.toml'))
        shutil.copy(os.path.join(TPL, 'main.rs.in'), os.path.join(self.crate, 'src', 'main.rs'))

    def generate(self, files):
        """scan.l and kwlist.h through the generator; returns trouble or None."""
        res = os.path.join(self.repo, 'crates', 'lexer-generator', 'resources')
        for f in ('scan.l', 'kwlist.h'):
            shutil.copy(os.path.join(files, f), os.path.join(res, f))
        rc, out = sh(['cargo', 'build', '--offline', '-q', '--release', '-p', 'lexer-generator'], self.repo, env=dict(CARGO_TARGET_DIR=self.gt), timeout=600)
        if rc:
            log(out[-1500:])
            raise Inconclusive('the lexer generator does not build')
        a = os.path.join(self.repo, 'crates/postgresql-cst-parser/src/lexer/generated.rs')
        b = os.path.join(self.repo, 'crates/parser-generator/src/parser_generator/lexer/generated.rs')
        for x in (a, b):
            os.path.exists(x) and os.unlink(x)
        rc, out = sh([os.path.join(self.gt, 'release', 'lexer-generator')], self.repo, timeout=120)
        if rc is None:
            return 'the lexer generator does not finish'
        if rc:
            return 'the lexer generator fails: ' + out[-300:].replace('\n', ' ')
        if not os.path.exists(a) or not os.path.exists(b):
            return 'the lexer generator does not write both scanners'
        if open(a).read() != open(b).read():
            return 'the two copies of the scanner differ'
        return None

    def build(self):
        src = os.path.join(self.crate, 'src')
        shutil.rmtree(os.path.join(src, 'lexer'), ignore_errors=True)
        shutil.copytree(os.path.join(self.repo, 'crates/postgresql-cst-parser/src/lexer'), os.path.join(src, 'lexer'))
        shutil.copy(os.path.join(self.repo, 'crates/postgresql-cst-parser/src/lexer.rs'), os.path.join(src, 'lexer.rs'))
        rc, out = sh(['cargo', 'build', '--offline', '-q'], self.crate, env=dict(CARGO_TARGET_DIR=self.st), timeout=600)
        return None if rc == 0 else out

    def run(self, files):
        return sh([os.path.join(self.st, 'debug', 'scanner'), files], files, timeout=120)


def reference(x, k, files, n):
    """Writes the files and has flex run them too; None if they are usable."""
    os.makedirs(files, exist_ok=True)
    rc, out = sh([x, 'gen', str(SEED), str(k), files, str(n)], files)
    if rc:
        raise Inconclusive('flexgen fails: ' + out[-300:])
    info = [int(v) for v in out.split()]
    rc, out = sh(['flex', '-8', '-o', 'c.c', 'c.l'], files, timeout=40)
    if rc != 0:
        return info, 'flex does not take it: ' + str(out)[-200:]
    rc, out = sh(['gcc', '-w', '-O0', '-o', 'c', 'c.c'], files)
    if rc:
        return info, 'gcc: ' + out[:200]
    p = subprocess.run(['./c', 'inputs'], cwd=files, capture_output=True, timeout=60)
    fl = p.stdout.split(b'\n')[:-1]
    ex = open(os.path.join(files, 'expected'), 'rb').read().split(b'\n')[:-1]
    if len(fl) != len(ex):
        return info, f'flex scanner ended early ({len(fl)} of {len(ex)})'
    for a, b in zip(fl, ex):
        if a != b'-' and a != b:
            log(k, a, b)
            raise Inconclusive('the model of rule selection disagrees with flex')
    return info, None


def inputs_of(files):
    b = open(os.path.join(files, 'inputs'), 'rb').read()
    i, v = 0, []
    while i + 4 <= len(b):
        n = struct.unpack('<I', b[i:i + 4])[0]
        v.append(b[i + 4:i + 4 + n].decode())
        i += 4 + n
    return v


def one(w, x, k, n, stat, lock):
    """One file; yields what is wrong."""
    files = os.path.join(w.d, 'files')
    shutil.rmtree(files, ignore_errors=True)
    info, skip = reference(x, k, files, n)
    if skip:
        with lock:
            stat['files_left_out'] += 1
        return
    bad = w.generate(files)
    if bad and 'too many DFA states' in bad:
        # the automata are made without looking for the smallest one; refusing is all right
        with lock:
            stat['files_refused_for_size'] = stat.get('files_refused_for_size', 0) + 1
        return
    if bad:
        yield bad, None
        return
    err = w.build()
    if err:
        # either the generated source is wrong or the scanner's own modules need more than this crate offers
        if 'generated.rs' in err:
            yield 'the generated scanner does not compile: ' + ' '.join(l for l in err.splitlines() if l.startswith('error'))[:300], None
            return
        log(err[-1500:])
        raise Inconclusive('the scanner crate does not build')
    rc, out = w.run(files)
    if rc is None:
        yield 'the generated scanner does not finish', None
        return
    if rc:
        raise Inconclusive('scanner driver: ' + out[-300:])
    exp = open(os.path.join(files, 'expected')).read().split('\n')[:-1]
    got = open(os.path.join(files, 'got')).read().split('\n')[:-1]
    ins = inputs_of(files)
    m = 0
    for s, e, g in zip(ins, exp, got):
        if e != g:
            m += 1
            if m <= 2:
                yield f'on {s!r} the scanner does {g!r} instead of {e!r}', s
    we, wg = (open(os.path.join(files, f)).read().split('\n') for f in ('words', 'gotwords'))
    for a, b in zip(we, wg):
        if a != b:
            yield f'keyword lookup gives {b!r} instead of {a!r}', None
            break
    with lock:
        stat['files'] += 1
        stat['rules'] += info[0]
        stat['conditions'] += info[1]
        stat['keywords'] += info[2]
        stat['rule_steps'] += info[3]
        stat['inputs'] += len(ins)
        stat['words_looked_up'] += len(we) - 1
        if len(stat['samples']) < 6 and ins:
            stat['samples'] += [f'file {k}: {ins[1]!r} -> {exp[1][:160]}', f'file {k}: {ins[2]!r} -> {exp[2][:160]}']


def check(prop):
    r = Result(prop)
    d = scratch(prop)
    try:
        x = gen_exe()
        nw = NCPU
        ws = [Worker(os.path.join(d, f'w{k}')) for k in range(nw)]
        ws[0].prepare()
        # dependencies are built once
        rc, out = sh(['cargo', 'build', '--offline', '-q', '--release', '-p', 'lexer-generator'], ws[0].repo, env=dict(CARGO_TARGET_DIR=ws[0].gt), timeout=600)
        if rc:
            log(out[-1500:])
            raise Inconclusive('the lexer generator does not build')
        for w in ws[1:]:
            w.prepare()
            shutil.copytree(ws[0].gt, w.gt, symlinks=True)
        stat = dict(files=0, rules=0, conditions=0, keywords=0, rule_steps=0, inputs=0, words_looked_up=0, files_left_out=0, samples=[])
        lock = threading.Lock()
        end = time.time() + (1500 if THOROUGH else 110)
        nxt = [0]

        def loop(w):
            while time.time() < end and len(r.viol) < 6:
                with lock:
                    k = nxt[0]
                    nxt[0] += 1
                for what, s in one(w, x, k, 2500, stat, lock):
                    with lock:
                        r.violation('Scanner: ' + what, [s if s is not None else f'file {k}'], file=k)
        with ThreadPoolExecutor(nw) as ex:
            list(ex.map(loop, ws))
        sm = stat.pop('samples')
        r.cov = dict(evaluations=stat['inputs'], distinct_nontrivial=stat['rule_steps'], rule='one case is one input to one generated scanner, judged on the whole sequence of actions, positions, tokens and the way it ends; counted as distinct: the rule applications compared',
                     samples=sm, counts=stat)
        r.assume = ['Every start condition has an end-of-input rule and a rule for every byte; conditions are declared one per line; rule patterns contain no blanks; at most 255 rules and 255 automaton states per condition (the tables hold bytes).',
                    'A match that ends inside a multibyte character is extended to its end; flex has no such notion, so those inputs are judged by the model alone.']
        if not r.viol and (stat['files'] < 8 or stat['files_left_out'] + stat.get('files_refused_for_size', 0) > stat['files']):
            raise Inconclusive(f'too little observed: {stat}')
        return r.finish()
    finally:
        shutil.rmtree(d, ignore_errors=True)


def replay(r):
    d = scratch('replay')
    try:
        global SEED
        SEED = r['seed']
        w = Worker(os.path.join(d, 'w'))
        w.prepare()
        stat = dict(files=0, rules=0, conditions=0, keywords=0, rule_steps=0, inputs=0, words_looked_up=0, files_left_out=0, samples=[])
        bad = list(one(w, gen_exe(), r['file'], 2500, stat, threading.Lock()))
        print(bad)
        if bad:
            print('VIOLATION property=C18 replayed')
        return 1 if bad else 0
    finally:
        shutil.rmtree(d, ignore_errors=True)
