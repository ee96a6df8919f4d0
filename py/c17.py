"""C17: parsers generated from random grammars, against bison's LALR(1) automaton for the same grammars."""
import os, random, shutil, struct, threading, time
from concurrent.futures import ThreadPoolExecutor
from vlib import *
from c18 import sh
import grammars as G
import regen

TPL = os.path.join(VERIF, 'py', 'grammar')


class Worker:
    """A copy of the repository with its own generator build and a client of the generated parser."""

    def __init__(self, d):
        self.d, self.repo, self.gt, self.st = d, os.path.join(d, 'repo'), os.path.join(d, 'gt'), os.path.join(d, 'st')
        self.crate = os.path.join(d, 'grammar')

    def prepare(self):
        regen.copy_repo(self.repo)
        if os.path.exists(os.path.join(REPO, 'Cargo.lock')):
            shutil.copy(os.path.join(REPO, 'Cargo.lock'), self.repo)
        os.makedirs(os.path.join(self.crate, 'src'), exist_ok=True)
        shutil.copy(os.path.join(TPL, 'Cargo.toml.in'), os.path.join(self.crate, 'Cargo.toml'))
        shutil.copy(os.path.join(TPL, 'main.rs.in'), os.path.join(self.crate, 'src', 'main.rs'))
        lock = os.path.join(VERIF, 'harness', 'Cargo.lock')
        if os.path.exists(lock):
            shutil.copy(lock, self.crate)

    def gen_build(self):
        rc, out = sh(['cargo', 'build', '--offline', '-q', '-p', 'parser-generator'], self.repo, env=dict(CARGO_TARGET_DIR=self.gt), timeout=600)
        if rc:
            log(out[-1500:])
            raise Inconclusive('the parser generator does not build')

    def generate(self, gram):
        shutil.copy(gram, os.path.join(self.repo, 'crates/parser-generator/resources/gram.y'))
        self.gen_build()
        for f in ('parser.rs', 'syntax_kind.rs'):
            p = os.path.join(self.repo, 'crates/postgresql-cst-parser/src', f)
            os.path.exists(p) and os.unlink(p)
        rc, out = sh([os.path.join(self.gt, 'debug', 'parser-generator')], self.repo, timeout=200, env=dict(RUST_BACKTRACE='0'))
        if rc is None:
            return 'the parser generator does not finish'
        if rc:
            return 'the parser generator fails: ' + out[-300:].replace('\n', ' ')
        return None

    def build(self):
        rc, out = sh(['cargo', 'build', '--offline', '-q'], self.crate, env=dict(CARGO_TARGET_DIR=self.st), timeout=600)
        return None if rc == 0 else out

    def run(self, files):
        return sh(['bash', '-c', f'ulimit -v 3000000; exec {self.st}/debug/grammar {files}'], files, timeout=200)


def expect(a, toks, pos, n):
    v, e = a.parse([(t, f' {G.kind(t)}@{p[0]}') for t, p in zip(toks, pos)])
    if v is None:
        b, c = pos[e] if e < len(pos) else (n, n)
        return f'error {b} {c}'
    return '(Root' + G.show(v) + ')'


def one(w, k, n, kws, stat, lock):
    rnd = random.Random(SEED * 1000003 + k)
    files = os.path.join(w.d, 'files')
    shutil.rmtree(files, ignore_errors=True)
    os.makedirs(files)
    g = G.make(rnd, kws)
    y = os.path.join(files, 'gram.y')
    if g:
        with open(y, 'w') as f:
            f.write(g.yacc())
        a, msg = G.bison(y, os.path.join(files, 'tables'))
    if not g or a is None:
        if g and 'reduce/reduce' not in msg:
            log(f'grammar {k}: {msg[:200]}')
        with lock:
            stat['grammars_left_out'] += 1
        return
    s = G.Sentences(g, rnd, kws)
    seen, exp, ins = set(), [], []
    for _ in range(n):
        t = s.tokens()
        x, pos, ln = s.spell(t)
        if x in seen:
            continue
        seen.add(x)
        try:
            exp.append(expect(a, t, pos, ln))
        except G.Loops:
            with lock:
                stat['inputs_left_out'] += 1
            continue
        ins.append(x)
    with open(os.path.join(files, 'inputs'), 'wb') as f:
        for x in ins:
            b = x.encode()
            f.write(struct.pack('<I', len(b)) + b)
    bad = w.generate(y)
    if bad:
        yield bad, None
        return
    err = w.build()
    if err:
        if 'parser.rs' in err or 'syntax_kind.rs' in err:
            yield 'the generated parser does not compile: ' + ' '.join(l for l in err.splitlines() if l.startswith('error'))[:300], None
            return
        log(err[-1500:])
        raise Inconclusive('the client of the generated parser does not build')
    rc, out = w.run(files)
    if rc is None:
        yield 'the generated parser does not finish', None
        return
    if rc:
        yield f'the generated parser ends the process: {rc} {out[-200:]!r}', None
        return
    got = open(os.path.join(files, 'got')).read().split('\n')[:-1]
    m = 0
    for x, e, v in zip(ins, exp, got):
        if e != v:
            m += 1
            if m <= 2:
                yield f'grammar {k}: {x!r} gives {v[:300]!r} instead of {e[:300]!r}', x
    with lock:
        stat['grammars'] += 1
        stat['grammars_with_shift_preferred'] += 'shift/reduce' in msg
        stat['grammars_with_precedence'] += bool(g.assoc)
        stat['productions'] += len(g.rules)
        stat['productions_reduced'] += len(a.used)
        stat['states'] += len(a.S)
        stat['automaton_cells_consulted'] += len(a.cells)
        stat['nonassoc_errors'] += sum(1 for s, t in a.cells if a.S[s][0].get(t, ('', 0))[0] == 'e')
        stat['largest_automaton'] = max(stat['largest_automaton'], len(a.S))
        stat['inputs'] += len(ins)
        stat['accepted'] += sum(1 for e in exp if e[0] == '(')
        if len(stat['samples']) < 8 and len(ins) > 3:
            i = max(range(len(ins)), key=lambda i: (exp[i][0] == '(', len(ins[i]) < 80, len(ins[i]) if len(ins[i]) < 80 else 0))
            stat['samples'].append(f'grammar {k} ({len(g.rules)} productions): {ins[i]!r} -> {exp[i][:200]}')


def fresh():
    return dict(grammars=0, grammars_with_shift_preferred=0, grammars_with_precedence=0, productions=0, productions_reduced=0, states=0, automaton_cells_consulted=0, nonassoc_errors=0,
                largest_automaton=0, inputs=0, accepted=0, grammars_left_out=0, inputs_left_out=0, samples=[])


def check(prop):
    r = Result(prop)
    d = scratch(prop)
    try:
        kws = G.keywords(REPO)
        ws = [Worker(os.path.join(d, f'w{k}')) for k in range(NCPU)]
        ws[0].prepare()
        ws[0].gen_build()
        # the dependencies are built once, here with the first grammar that works
        for w in ws[1:]:
            w.prepare()
            shutil.copytree(ws[0].gt, w.gt, symlinks=True)
        stat, lock = fresh(), threading.Lock()
        end = time.time() + (1500 if THOROUGH else 130)
        nxt = [0]

        def loop(w):
            while time.time() < end and len(r.viol) < 6:
                with lock:
                    k = nxt[0]
                    nxt[0] += 1
                for what, s in one(w, k, 1500, kws, stat, lock):
                    with lock:
                        r.violation('Grammar: ' + what, [s if s is not None else f'grammar {k}'], grammar=k, source=open(os.path.join(w.d, 'files', 'gram.y')).read())
        with ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(loop, ws))
        sm = stat.pop('samples')
        r.cov = dict(evaluations=stat['inputs'], distinct_nontrivial=stat['automaton_cells_consulted'],
                     rule='one case is one input to one generated parser, judged on its whole derivation or on the place of the error; counted as distinct: the (state, token) pairs of the reference automata that the inputs consulted',
                     samples=sm, counts=stat)
        r.assume = ['Grammars use what gram.y uses: %token, %type, %left, %right, %nonassoc, %prec, literals of one character, actions at the end of alternatives; the first rule is the start symbol.',
                    'Grammars with reduce/reduce conflicts, with symbols that derive nothing and with unreachable symbols are left out.']
        if not r.viol and stat['grammars'] < 8:
            raise Inconclusive(f'too little observed: {stat}')
        return r.finish()
    finally:
        shutil.rmtree(d, ignore_errors=True)


def replay(r):
    d = scratch('replay')
    try:
        global SEED
        SEED = r['seed']
        w = Worker(os.path.join(d, 'w'))
        w.prepare()
        bad = list(one(w, r['grammar'], 1500, G.keywords(REPO), fresh(), threading.Lock()))
        print(bad)
        if bad:
            print('VIOLATION property=C17 replayed')
        return 1 if bad else 0
    finally:
        shutil.rmtree(d, ignore_errors=True)
