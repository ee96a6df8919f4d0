"""C14: the command-line program and the WebAssembly entry point against an independent rendering and the input."""
import os, shutil, subprocess
from vlib import *
from c11 import emit, pack, unpack

FRONT = os.path.join(VERIF, 'front')
MIX = 'gram.plain,gram.wild,mutate.plain,mutate.wild,soup,soup.wild,bytes,corpus,spaced,cmut,trunc,glyphs,contin,keywords,tails,rules.wild,la.rand'
# shapes a front end could get wrong: line ends, blanks at either end, marks, several lines, nothing at all, long tokens
SHAPES = ['', ' ', '\n', '\r\n', '\t \n', ';', 'select 1', 'select 1\n', 'select 1\r\n', 'select 1\n\n\n', '\n\nselect 1', '  select 1  ', 'select 1;\nselect 2;\n', 'select\n1\n,\n2', 'select\r\n1\r\n', 'select\r1',
          '\ufeffselect 1', 'select 1 -- c', 'select 1 -- c\n', '-- c', '-- c\r\n', '/* a\nb */', "select 'a\nb\r\nc'", "select 'it''s \\ \" %s {} {0} %n'", 'select "a{}b%d"', "select '\u00e9\u65e5\U0001F600'", "select '" + '\u65e5' * 9 + "'",
          "select '" + 'x' * 22 + "'", "select '" + 'x' * 23 + "'", "select '" + 'x' * 20 + '\U0001F600' * 3 + "'", "select '" + 'a' * 100 + "'", 'select $$\n$$', 'select )', '\nselect )', 'select \u00e9 )', "select 'open", '"', 'select "', '/* open', "select e'\\uD800'",
          'select 1\0', '\0', 'select \u00a0 1', 'select 1\u2028', 'select \u200b', "U&'\\zz'", 'select $99999999999', 'select 1a', 'error', 'Error: x', 'select \x1b[0m', "select '\x1b[0m'", "select '\t\x0b\x0c\x7f'", "select 'a\x00b'", '\\', '\\q', '\\echo x', '-', '--', '- -', '-h', '--help', '--version', '/dev/null', 'file.sql', 'exit', 'quit', '^D', '\x04', '\x1a', 'select 1\x1a', 'select 1\x04']


def large(n):
    """Inputs beyond the sizes of pipes, lines and buffers."""
    k = 4 if THOROUGH else 1
    v = []
    for size in [4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537, 131072, 1 << 20, (1 << 20) + 1, 3 << 20] + ([8 << 20, 20 << 20] if THOROUGH else []):
        for a, b, c in [("select '", 'x', "'"), ('select 1 /*', 'y\n', '*/'), ('-- ', 'z', '\nselect 2'), ('select "', '\u65e5', '"'), ('select 1', ' ', ''), ('', '\n', 'select 1'), ("select '", 'x', ''), ('select 1', ' ', ')')]:
            w = (size - len((a + c).encode())) // len(b.encode())
            s = a + b * w + c
            v.append(s + ' ' * (size - len(s.encode())) if not s.endswith(' ') and c != '' else s)
    for m in (300, 2000, 3500 * k):
        v.append(';\n'.join(f'select {i}, a{i} from t{i} where b = \'{i}\'' for i in range(m)))
        v.append('select ' + ',\n'.join(str(i) for i in range(m)))
        v.append('select ' + ',\n'.join(str(i) for i in range(m)) + ' from')
        v.append('\r\n'.join(f'-- line {i}\r\nselect {i};' for i in range(m)))
    return v


def build():
    cli = os.path.join(cargo(os.path.join(REPO, 'crates', 'postgresql-cst-parser'), 'h-cli', ['--release', '--bin', 'parse']), 'release', 'parse')
    fr = os.path.join(cargo(FRONT, 'h-front', ['--release']), 'release', 'front')
    return cli, fr


def drive(fr, cli, path, secs, threads=NCPU):
    p = subprocess.run([fr, cli, path, str(secs), str(threads)], capture_output=True, text=True, timeout=secs + 400)
    cnt, bad = {}, []
    for l in p.stdout.splitlines():
        f = l.split('\t')
        if f[0] == 'bad':
            bad.append((int(f[1]), f[2]))
        else:
            cnt[f[0]] = int(f[1])
    if p.returncode or 'accepted' not in cnt:
        log(p.stderr[-2000:])
        raise Inconclusive(f'front driver ended with {p.returncode}')
    return cnt, bad


def check(prop):
    r = Result(prop)
    d = scratch(prop)
    try:
        vwx = vw('std')
        cli, fr = build()
        p = os.path.join(d, 'in')
        emit(vwx, p, MIX, 1_000_000 if THOROUGH else 60_000, 20_000, 700)
        gen = unpack(p)
        big = large(0)
        tot = {}
        todo = [(SHAPES, 120), (big, 240), (gen, BUDGET / (1 if THOROUGH else 4))]
        if not THOROUGH:
            todo[1] = (big, 120)
        kinds = ['shapes', 'large', 'generated']
        seen = set()
        for (ins, secs), name in zip(todo, kinds):
            pack(p, ins)
            cnt, bad = drive(fr, cli, p, secs, NCPU if name != 'large' else max(1, NCPU // 2))
            done = cnt['accepted'] + cnt['rejected']
            tot[name] = done
            for k, v in cnt.items():
                tot[k] = tot.get(k, 0) + v
            for k, e in bad:
                r.violation(e, [ins[k]])
            if not bad and done + cnt['unjudged'] == len(ins):
                seen.update(ins)
            elif not bad:
                seen.update(ins[:done])
        n = tot['accepted'] + tot['rejected']
        r.cov = dict(evaluations=n, distinct_nontrivial=len(seen), rule='one case is one input given to the program as a process and to the WebAssembly entry point, judged against a rendering written in the harness, the debug form of the error, and the input text itself',
                     samples=[x[:120] for x in gen[5:12]], counts=tot, largest_input=max(len(x.encode()) for x in big))
        r.assume = ['The WebAssembly entry point is called as compiled for this machine, not inside a browser.', 'The program gets valid UTF-8 on standard input.']
        if not r.viol:
            if not tot['accepted'] or not tot['rejected'] or n < 1000 or tot['unjudged'] > n // 20:
                raise Inconclusive(f'too little observed: {tot}')
        return r.finish()
    finally:
        shutil.rmtree(d, ignore_errors=True)


def replay(r):
    d = scratch('replay')
    try:
        cli, fr = build()
        p = os.path.join(d, 'in')
        # (pieces of input are chosen by position)
        pack(p, r['inputs'] * 12)
        cnt, bad = drive(fr, cli, p, 300)
        print(cnt, bad[:2])
        if bad:
            print('VIOLATION property=C14 replayed')
        return 1 if bad else 0
    finally:
        shutil.rmtree(d, ignore_errors=True)
