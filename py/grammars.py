"""Random yacc grammars, bison's automaton for them, sentences, and the parse that automaton prescribes."""
import os, re, random, subprocess, sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'tools'))
import gen_tables

LIT = list("+-*/%^<>=()[],.;:")
NAMED = {'ICONST': ['1', '42', '0x1f'], 'FCONST': ['1.5', '.5', '1e3'], 'SCONST': ["'a'", "$$b$$", "E'c'"], 'IDENT': ['x', 'foo', '"Q"'], 'PARAM': ['$1', '$2'], 'Op': ['||', '@', '~~'],
         'TYPECAST': ['::'], 'DOT_DOT': ['..'], 'COLON_EQUALS': [':='], 'EQUALS_GREATER': ['=>'], 'LESS_EQUALS': ['<='], 'GREATER_EQUALS': ['>='], 'NOT_EQUALS': ['<>', '!='],
         'BCONST': ["b'1'"], 'XCONST': ["x'1'"]}
MAP = {'-': 'Minus', ',': 'Comma', ';': 'Semicolon', ':': 'Colon', '.': 'Dot', '(': 'LParen', ')': 'RParen', '[': 'LBracket', ']': 'RBracket', '*': 'Star', '/': 'Slash', '%': 'Percent',
       '^': 'Caret', '+': 'Plus', '<': 'Less', '=': 'Equals', '>': 'Greater'}
CONTEXT = {'not', 'nulls', 'with', 'without', 'format'}


def keywords(repo):
    """(spelling, token name) of every keyword that is not decided by what follows."""
    r = []
    for l in open(os.path.join(repo, 'crates/lexer-generator/resources/kwlist.h')):
        m = re.match(r'PG_KEYWORD\("(\w+)",\s*(\w+),', l)
        if m and m[1] not in CONTEXT:
            r.append((m[1], m[2]))
    return r


class G:
    """A grammar being put together: rules (lhs, [symbols], prec name or None)."""

    def __init__(self, rnd, kws):
        self.r, self.kws = rnd, kws
        self.rules, self.assoc, self.nts = [], [], []
        self.text = {}           # token name -> spellings
        self.fresh = list(kws)
        rnd.shuffle(self.fresh)
        self.n = 0
        self.pseudo = 0
        self.starts = []

    def nt(self, hint=''):
        self.n += 1
        s = self.r.choice(['n', 'a_', 'stmt', 'Expr', 'opt_', 'x', 'List']) + hint + str(self.n)
        self.nts.append(s)
        return s

    def kw(self):
        s, t = self.fresh.pop()
        self.text[t] = [s, s.upper()]
        return t

    def tok(self):
        k = self.r.random()
        if k < .5:
            return "'" + self.r.choice(LIT) + "'"
        if k < .8:
            t = self.r.choice(list(NAMED))
            self.text[t] = NAMED[t]
            return t
        return self.kw()

    def named(self, t):
        self.text[t] = NAMED[t]
        return t

    def add(self, l, syms, prec=None):
        self.rules.append((l, list(syms), prec))

    def level(self, names, d=None):
        self.assoc.append((d or self.r.choice(['left', 'left', 'right', 'nonassoc']), list(names)))

    # ---- families

    def expr(self, ops):
        """An operator grammar over declared operator tokens; ops is what may be used."""
        r = self.r
        e = self.nt('e')
        use = r.sample(ops, min(len(ops), r.randint(2, 6)))
        atom = r.choice(['ICONST', 'IDENT', 'FCONST'])
        self.add(e, [self.named(atom)])
        if r.random() < .7:
            self.add(e, ["'('", e, "')'"])
        forms = ['bin'] * 4 + ['pre', 'post', 'mix', 'tern', 'noprec', 'two', 'listop']
        for o in use:
            f = r.choice(forms)
            if f == 'bin':
                self.add(e, [e, o, e])
            elif f == 'pre':
                self.add(e, [o, e], r.choice([None, self.ps()]))
            elif f == 'post':
                self.add(e, [e, o])
            elif f == 'mix':
                self.add(e, [e, o, e], r.choice([None, self.ps()]))
                self.add(e, [o, e], self.ps())
            elif f == 'tern':
                self.add(e, [e, o, e, self.kw() if r.random() < .5 else r.choice(use), e], r.choice([None, None, self.ps()]))
            elif f == 'noprec':
                self.add(e, [e, self.kw(), e], r.choice([None, None, self.ps()]))
                self.add(e, [e, o, e])
            elif f == 'two':
                k = self.kw()
                self.add(e, [e, o, e])
                self.add(e, [e, o, k, e], r.choice([None, self.ps()]))
                self.add(e, [e, k, o, e], r.choice([None, self.ps()]))
            elif f == 'listop':
                l = self.list(e)
                self.add(e, [e, o, "'['", l, "']'"], r.choice([None, self.ps()]))
        return e

    def ps(self):
        """A precedence name: a pseudo token or an operator."""
        r = self.r
        names = [n for _, ns in self.assoc for n in ns if not n.startswith("'")]
        return r.choice(names) if names else None

    def list(self, item):
        r = self.r
        l = self.nt('l')
        sep = r.choice(["','", "';'", "'.'", None])
        s = [sep] if sep else []
        if r.random() < .5:
            self.add(l, [item])
            self.add(l, [l] + s + [item])
        else:
            self.add(l, [item])
            self.add(l, [item] + s + [l])
        if r.random() < .3:
            o = self.nt('o')
            a = [[], [l]]
            r.shuffle(a)
            for x in a:
                self.add(o, x)
            return o
        return l

    def opt(self, item):
        o = self.nt('o')
        a = [[], [item]]
        self.r.shuffle(a)
        for x in a:
            self.add(o, x)
        return o

    def dangling(self):
        r = self.r
        s = self.nt('s')
        i, e = self.kw(), self.kw()
        c = self.named('IDENT')
        a = [[i, c, s], [i, c, s, e, s], [self.named('ICONST')]]
        if r.random() < .5:
            a.append(["'['", self.list(s), "']'"])
        r.shuffle(a)
        for x in a:
            self.add(s, x, r.choice([None, None, self.ps()]))
        return s

    def cfg(self, n=None):
        """A random context-free grammar; not every one is usable."""
        r = self.r
        n = n or r.randint(2, 6)
        v = [self.nt('r') for _ in range(n)]
        pool = [self.tok() for _ in range(r.randint(2, 6))]
        for x in v:
            for _ in range(r.randint(1, 4)):
                k = r.choice([0, 1, 1, 2, 2, 2, 3, 3, 4])
                self.add(x, [r.choice(v) if r.random() < .45 else r.choice(pool) for _ in range(k)])
        return v[0]

    def nullables(self):
        """Runs of optional parts in front of, between and after marks."""
        r = self.r
        s = self.nt('q')
        for _ in range(r.randint(1, 3)):
            a = [self.tok()]
            for _ in range(r.randint(1, 4)):
                o = self.opt(r.choice([self.kw(), self.named('SCONST'), self.kw()]))
                a.append(o)
                if r.random() < .3:
                    a.append(self.kw())
            self.add(s, a)
        return s

    def lalr(self):
        """Grammars in which the lookahead comes through chains of nullable and unit rules."""
        r = self.r
        s, a, b, c = (self.nt('k') for _ in range(4))
        t = [self.kw() for _ in range(5)]
        self.add(s, [t[0], a, t[1]])
        self.add(s, [t[2], b, t[1]] if r.random() < .5 else [t[0], b, t[3]])
        self.add(s, [t[4], a, c, t[3]])
        self.add(a, [self.named('ICONST')])
        self.add(a, [c])
        self.add(b, [self.named('ICONST')] if r.random() < .5 else [self.named('ICONST'), c])
        self.add(c, [])
        self.add(c, [t[1 if r.random() < .2 else 3], r.choice([a, b])])
        return s

    def several(self):
        """Two or more ways to reduce and one to shift on the same token, told apart by precedence."""
        r = self.r
        s = self.nt('v')
        t, x = self.kw(), r.choice([o for _, ns in self.assoc for o in ns if not o.startswith('PSEUDO')] or ["'+'"])
        self.add(s, [t, x] + ([self.tok()] if r.random() < .5 else []))
        for _ in range(r.randint(1, 3)):
            a = self.nt('a')
            self.add(a, [t], self.ps())
            self.add(s, [a, r.choice([x, x, self.tok()])] + ([self.kw()] if r.random() < .7 else []))
        return s

    # ---- the whole

    def prune(self):
        """Keeps what derives something and can be reached; returns whether the start symbol stays."""
        nts = set(l for l, _, _ in self.rules)
        good = set()
        while True:
            k = len(good)
            for l, s, _ in self.rules:
                if all(x in good or x not in nts for x in s):
                    good.add(l)
            if len(good) == k:
                break
        self.rules = [x for x in self.rules if x[0] in good and all(y in good or y not in nts for y in x[1])]
        if not self.rules:
            return False
        reach = {self.start}
        while True:
            k = len(reach)
            for l, s, _ in self.rules:
                if l in reach:
                    reach.update(x for x in s if x in good)
            if len(reach) == k:
                break
        # the same production twice would be a conflict
        seen, out = set(), []
        for l, s, p in self.rules:
            if l in reach and (l, tuple(s)) not in seen:
                seen.add((l, tuple(s)))
                out.append((l, s, p))
        self.rules = out
        return self.start in good

    def yacc(self):
        """The grammar file, laid out at random."""
        r = self.r
        nts = []
        for l, _, _ in self.rules:
            if l not in nts:
                nts.append(l)
        toks = sorted({x for _, s, _ in self.rules for x in s if x not in nts and not x.startswith("'")} | {n for _, ns in self.assoc for n in ns if not n.startswith("'")})
        o = []
        if r.random() < .5:
            o += ['%{', '/* c code %token not_a_token */', 'static int x;', '%}', '']
        # tokens, with or without a type, some on continuation lines
        i = 0
        r.shuffle(toks)
        assoc_names = {n for _, ns in self.assoc for n in ns}
        plain = [t for t in toks if t not in assoc_names or r.random() < .5]
        while i < len(plain):
            k = r.randint(1, 6)
            part = plain[i:i + k]
            i += k
            line = '%token ' + r.choice(['', '<str> ', '<keyword> '])
            cut = r.randint(1, len(part))
            o.append(line + '\t'.join(part[:cut]))
            if part[cut:]:
                o.append(r.choice(['\t', '   ', '\t\t']) + ' '.join(part[cut:]))
            if r.random() < .2:
                o.append('')
        t = [x for x in nts if r.random() < .6]
        i = 0
        while i < len(t):
            k = r.randint(1, 4)
            part = t[i:i + k]
            i += k
            cut = r.randint(1, len(part))
            o.append('%type <node>\t' + ' '.join(part[:cut]))
            if part[cut:]:
                o.append('\t\t' + ' '.join(part[cut:]))
        if r.random() < .5:
            o += ['', '/* Precedence: lowest to highest */']
        for d, ns in self.assoc:
            cut = r.randint(1, len(ns))
            line = '%' + d + r.choice(['\t', ' ', '\t\t']) + r.choice(['\t', ' ']).join(ns[:cut])
            rest = ns[cut:]
            if rest:
                o.append(line)
                o.append(r.choice(['\t\t', ' ']) + ' '.join(rest))
            else:
                o.append(line + r.choice(['', '', '\t\t/* binds */', ' /* a b + */']))
        o += ['', '%%', '']
        # the rules of one symbol stand together, sometimes in two blocks
        order = [self.start] + [x for x in nts if x != self.start]
        blocks = []
        for l in order:
            alts = [(s, p) for a, s, p in self.rules if a == l]
            if len(alts) > 2 and r.random() < .1 and l != self.start:
                blocks.append((l, alts[:1]))
                blocks.append((l, alts[1:]))
            else:
                blocks.append((l, alts))
        flat = []
        for l, alts in blocks:
            if r.random() < .2:
                o.append(r.choice(['/* a comment: with | marks ; and { */', '// another: | ; }', '/**/']))
            out = l + r.choice([':', ' :', ':\n\t\t', '\n\t:'])
            for n, (s, p) in enumerate(alts):
                flat.append((l, s, p))
                if n:
                    out += r.choice(['\n\t| ', '\n\t\t\t| ', ' | '])
                out += r.choice([' ', '\n\t\t']) if not s and r.random() < .3 else ' '
                out += (' '.join(s) if s else r.choice(['', '/*EMPTY*/', '/* EMPTY */']))
                if p:
                    out += r.choice([' %prec ', '\t\t%prec ']) + p
                if r.random() < .4:
                    out += r.choice([' { makeNode(); }', ' { }', '\n\t\t\t\t{\n\t\t\t\t\tif (x) { y(); } else { z(); }\n\t\t\t\t\tp = NULL;\n\t\t\t\t}', '\t\t{ /* nothing | here ; */ }'])
            out += r.choice([' ;', '\n\t\t;', ';'])
            o.append(out)
            if r.random() < .5:
                o.append('')
        self.rules = flat
        o.append('%%')
        if r.random() < .3:
            o.append('/* trailing C: a | b ; */\nint f(void) { return 1; }')
        return '\n'.join(o) + '\n'


def make(rnd, kws):
    """One grammar object with a start symbol, or None if this draw is of no use."""
    g = G(rnd, kws)
    # precedence levels over operators and pseudo tokens
    lits = list("+-*/%^<>=.")
    rnd.shuffle(lits)
    ops = []
    for _ in range(rnd.randint(0, 6)):
        names = []
        for _ in range(rnd.choice([1, 1, 2, 3])):
            k = rnd.random()
            if k < .5 and lits:
                names.append("'" + lits.pop() + "'")
            elif k < .65:
                g.pseudo += 1
                names.append(f'PSEUDO{g.pseudo}')
            else:
                c = [x for x in ('Op', 'TYPECAST', 'LESS_EQUALS', 'NOT_EQUALS') if x not in [n for _, ns in g.assoc for n in ns] + names]
                if c and rnd.random() < .4:
                    names.append(g.named(rnd.choice(c)))
                else:
                    names.append(g.kw())
        if names:
            g.level(names)
            ops += [n for n in names if not n.startswith('PSEUDO')]
    ops += ["'" + x + "'" for x in lits[:2]]
    parts = []
    big = rnd.random() < .2
    for _ in range(rnd.randint(12, 24) if big else rnd.randint(1, 8)):
        f = rnd.choice(['expr'] * 4 + ['dangling', 'null', 'lalr', 'several', 'list'] + ([] if big else ['cfg'] * 3))
        if f == 'expr':
            parts.append(g.expr(ops) if len(ops) > 1 else g.dangling())
        elif f == 'dangling':
            parts.append(g.dangling())
        elif f == 'cfg':
            parts.append(g.cfg())
        elif f == 'null':
            parts.append(g.nullables())
        elif f == 'several':
            parts.append(g.several())
        elif f == 'lalr':
            parts.append(g.lalr())
        else:
            parts.append(g.list(g.opt(g.tok()) if rnd.random() < .3 else rnd.choice(parts) if parts else g.tok()))
    k = rnd.random()
    one = g.nt('one')
    if len(parts) == 1 and k < .7:
        g.start = parts[0]
    else:
        g.start = one
        for p in parts:
            # a mark in front keeps the parts apart; sometimes two share a mark
            if rnd.random() < .1 and g.rules and any(l == one for l, _, _ in g.rules):
                m = [s[0] for l, s, _ in g.rules if l == one][-1]
            else:
                m = g.kw()
            g.add(one, [m, p] + ([g.tok()] if rnd.random() < .15 else []))
        if rnd.random() < .5:
            top = g.nt('top')
            a = [[top, "';'", one], [one] if rnd.random() < .6 else []]
            if rnd.random() < .4:
                a = [[one, "';'", top], [one] if rnd.random() < .6 else []]
            rnd.shuffle(a)
            for x in a:
                g.add(top, x)
            g.start = top
    return g if g.prune() else None


class Loops(Exception):
    """The reference automaton itself reduces for ever."""


class Automaton:
    """bison's tables, with rules given as (lhs, symbols)."""

    def __init__(self, path):
        T, N, self.R, L = [], [], [], []
        self.S = []
        for l in open(path):
            k, _, v = l.rstrip('\n').partition(' ')
            v = v.split(' ') if v else []
            if k == 'T':
                T.append(' '.join(v))
            elif k == 'N':
                N.append(v[0])
            elif k == 'R':
                self.R.append((v[0], v[1:]))
            elif k == 'L':
                L.append([int(x) for x in v])
            elif k == 'S':
                self.S.append((dict(), dict()))
            elif k == 's':
                for x in v:
                    a, b = x.split(':')
                    self.S[-1][0][T[int(a)]] = ('s', int(b))
            elif k == 'g':
                for x in v:
                    a, b = x.split(':')
                    self.S[-1][1][N[int(a)]] = int(b)
            elif k == 'r':
                for x in v:
                    a, b = x.split(':')
                    for t in L[int(b)]:
                        assert T[t] not in self.S[-1][0] or self.S[-1][0][T[t]][0] == 'e', 'two actions'
                        self.S[-1][0].setdefault(T[t], ('r', int(a)))
            elif k == 'e':
                for x in v:
                    self.S[-1][0][T[int(x)]] = ('e', 0)
            elif k == 'a':
                self.S[-1][0]['$end'] = ('a', 0)
        self.R = [(N[int(l[1:])], [T[int(x[1:])] if x[0] == 't' else N[int(x[1:])] for x in s]) for l, s in self.R]
        self.used = set()
        self.cells = set()

    def parse(self, toks):
        """Derivation as nested lists, or the index of the token at which it stops."""
        st, vs = [0], []
        for i, (t, leaf) in enumerate(toks + [('$end', None)]):
            for step in range(20001):
                if step == 20000:
                    raise Loops
                a = self.S[st[-1]][0].get(t)
                self.cells.add((st[-1], t))
                if a is None or a[0] == 'e':
                    return None, i
                if a[0] == 'a':
                    return vs[0], None
                if a[0] == 's':
                    st.append(a[1])
                    vs.append(leaf)
                    break
                l, s = self.R[a[1]]
                self.used.add(a[1])
                n = len(s)
                ch = vs[len(vs) - n:]
                del vs[len(vs) - n:]
                del st[len(st) - n:]
                vs.append((l, ch))
                st.append(self.S[st[-1]][1][l])


def show(v):
    o = []
    st = [v]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            o.append('(' + x[0])
            st.append(')')
            st.extend(reversed(x[1]))
        else:
            o.append(x)
    return ''.join(o)


def kind(t):
    if t.startswith("'"):
        return MAP[t[1]]
    return t


class Sentences:
    def __init__(self, g, rnd, kws):
        self.g, self.r = g, rnd
        self.by = {}
        for l, s, _ in g.rules:
            self.by.setdefault(l, []).append(s)
        # cheapest depth of each symbol
        self.cost = {}
        ch = True
        while ch:
            ch = False
            for l, s, _ in g.rules:
                c = 1 + max([self.cost.get(x, 0 if x not in self.by else 10**6) for x in s], default=0)
                if c < self.cost.get(l, 10**6):
                    self.cost[l] = c
                    ch = True
        self.toks = sorted({x for s in self.by.values() for a in s for x in a if x not in self.by})
        self.foreign = [t for _, t in rnd.sample(kws, 8)] + ['DOT_DOT', "','", "']'"]
        self.text = dict(g.text)
        for s, t in kws:
            self.text.setdefault(t, [s])
        for t, v in NAMED.items():
            self.text.setdefault(t, v)

    def derive(self, budget):
        out, st = [], [(self.g.start, 0)]
        n = 0
        while st:
            x, d = st.pop()
            if x not in self.by:
                out.append(x)
                continue
            n += 1
            alts = self.by[x]
            if n > budget or d > 60:
                alts = [min(alts, key=lambda a: max([self.cost.get(y, 0) for y in a], default=0))]
            s = self.r.choice(alts)
            st.extend((y, d + 1) for y in reversed(s))
            if len(out) > 400:
                break
        return out

    def tokens(self):
        r = self.r
        t = self.derive(r.choice([3, 6, 12, 25, 50]))
        k = r.random()
        if k > .5:
            for _ in range(r.choice([1, 1, 1, 2, 3])):
                f = r.randint(0, 5)
                i = r.randint(0, len(t))
                if f == 0 and t:
                    del t[min(i, len(t) - 1)]
                elif f == 1:
                    t.insert(i, r.choice(self.toks))
                elif f == 2 and t:
                    t[min(i, len(t) - 1)] = r.choice(self.toks)
                elif f == 3:
                    t = t[:i]
                elif f == 4 and len(t) > 1:
                    i = min(i, len(t) - 2)
                    t[i], t[i + 1] = t[i + 1], t[i]
                elif f == 5 and r.random() < .3:
                    t.insert(i, r.choice(self.foreign))
        return t

    def spell(self, t):
        """The text of the tokens and where each stands."""
        r = self.r
        o, n, pos = [], 0, []
        for x in t:
            w = r.choice([' ', ' ', ' ', '\n', '  ', '/* c */ ', ' -- d\n', '\t']) if n or r.random() < .3 else ''
            s = x[1] if x.startswith("'") else r.choice(self.text[x])
            if r.random() < .8 and n:
                w = ' '
            # strings that stand on different lines are one string
            if o and o[-1].endswith("'") and s.startswith("'"):
                w = r.choice([' ', '  ', '/* c */'])
            o.append(w)
            n += len(w)
            pos.append((n, n + len(s)))
            o.append(s)
            n += len(s)
        if r.random() < .2:
            o.append(r.choice([' ', '\n', ' -- end', ' /* e */']))
            n += len(o[-1])
        return ''.join(o), pos, n


def bison(path, out):
    """bison's automaton, or why the grammar is of no use."""
    try:
        msg = gen_tables.generate(path, out)
    except RuntimeError as e:
        return None, str(e)
    if 'reduce/reduce' in msg:
        return None, 'reduce/reduce'
    return Automaton(out), msg
