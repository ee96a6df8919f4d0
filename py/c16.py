"""C16: scanner automata against a direct matcher on pattern trees; the matcher itself is checked against flex in the same run."""
import os, resource, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
from vlib import *

CRATE = os.path.join(VERIF, 'autom')


def exe():
    try:
        td = cargo(CRATE, 'h-autom', ['--release', '--bin', 'autom'])
    except Inconclusive:
        # the nondeterministic automaton is an internal interface that may change: judge the rest
        td = cargo(CRATE, 'h-autom', ['--release', '--bin', 'autom', '--no-default-features'])
    return os.path.join(td, 'release', 'autom')


def limited(cmd, cpu, mem=3 << 30):
    """Runs with a bound on time and memory: (exit status or None, output)."""
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=cpu, preexec_fn=f)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return None, ''


def against_flex(x, d, first, count):
    """The matcher and flex on the same sets: (strings, disagreements, None) or a reason for not comparing."""
    os.makedirs(d)
    subprocess.run([x, 'flex', str(SEED), str(first), str(count), d], check=True)
    try:
        p = subprocess.run(['flex', '-8', '-o', 't.c', 't.l'], cwd=d, capture_output=True, text=True, timeout=60)
    except subprocess.TimeoutExpired:
        return 0, [], 'flex took too long'
    if p.returncode:
        return 0, [], 'flex: ' + '\n'.join(l for l in p.stderr.splitlines() if 'cannot be matched' not in l)[:300]
    p = subprocess.run(['gcc', '-O0', '-w', '-o', 't', 't.c'], cwd=d, capture_output=True, text=True)
    if p.returncode:
        return 0, [], 'gcc: ' + p.stderr[:300]
    p = subprocess.run(['./t', 't.in'], cwd=d, capture_output=True, text=True, timeout=120)
    bad = [l for l in p.stdout.splitlines() if l.startswith('bad')]
    n = [l for l in p.stdout.splitlines() if l.startswith('n\t')]
    return (int(n[0].split('\t')[1]) if n else 0), bad, None if n else 'no output'


def check(prop):
    r = Result(prop)
    d = scratch(prop)
    try:
        x = exe()
        secs = 1500 if THOROUGH else 60
        cnt = {}
        with ThreadPoolExecutor(NCPU) as ex:
            fl = list(ex.map(lambda k: against_flex(x, os.path.join(d, f'f{k}'), k * 20, 20), range(160 if THOROUGH else 24)))
            outs = list(ex.map(lambda k: limited([x, 'run', str(SEED), str(k), str(NCPU), str(secs), os.path.join(d, f'j{k}')], secs + 120), range(NCPU)))
        for k, (rc, out) in enumerate(outs):
            if rc != 0:
                if r.viol:
                    continue
                # the case that was running, alone
                case = int.from_bytes(open(os.path.join(d, f'j{k}'), 'rb').read(8), 'little')
                rc2, out2 = limited([x, 'one', str(SEED), str(case)], 120)
                if rc2 == 0:
                    raise Inconclusive(f'driver ended with {rc}, case {case} alone with {rc2}: {out[-300:]}')
                what = subprocess.run([x, 'describe', str(SEED), str(case)], capture_output=True, text=True).stdout.strip()
                r.violation(f'Stuck: case {case} does not finish ({"out of time" if rc2 is None else f"ended with {rc2}"}): {what[:400]}', [what], case=case)
                continue
            for l in out.splitlines():
                f = l.split('\t')
                if f[0] == 'n':
                    cnt[f[1]] = cnt.get(f[1], 0) + int(f[2])
                else:
                    r.violation('Automaton: ' + f[2], [f[2]], case=int(f[1]))
        cnt['flex_strings'] = sum(f[0] for f in fl)
        cnt['flex_batches_not_compared'] = sum(1 for f in fl if f[2])
        for f in fl:
            if f[1]:
                # the reference is wrong: nothing can be said
                log(f[1][:3])
                raise Inconclusive('the matcher disagrees with flex')
        if cnt['flex_strings'] < 5000:
            raise Inconclusive(f'too little compared with flex: {[f[2] for f in fl if f[2]][:3]}')
        r.cov = dict(evaluations=cnt['positions'], distinct_nontrivial=cnt['positions_with_a_match'], rule='one case is one position of one string under one start condition of one random pattern set; non-trivial: something of positive length matches there',
                     samples=[subprocess.run([x, 'sample', str(SEED), str(k)], capture_output=True, text=True).stdout.strip()[:400] for k in (3, 4, 5)], counts=cnt)
        r.assume = ['Byte 0 stands for the end of the input in these automata and is left out of patterns and strings.', 'Syntax outside the subset that the regular-expression parser knows (trailing context, anchors, named classes, escapes in quotes, open counts) is not generated.']
        if not r.viol and cnt['pattern_sets'] < 200:
            raise Inconclusive(f'too little observed: {cnt}')
        return r.finish()
    finally:
        shutil.rmtree(d, ignore_errors=True)


def replay(r):
    rc, out = limited([exe(), 'one', str(r['seed']), str(r['case'])], 120)
    print(out[-2000:])
    if rc != 0 or out.startswith('bad'):
        print('VIOLATION property=C16 replayed')
        return 1
    return 0
