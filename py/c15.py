"""C15: run both generators on the sources, twice, and compare the library built from their output with the checked-in one."""
import os, shutil
from concurrent.futures import ThreadPoolExecutor
from vlib import *
import regen, twin

NAMES = ('checked-in library', 'regenerated library')
HAND = ['crates/postgresql-cst-parser/src/' + x for x in ('lexer.rs', 'lexer/lexer_ported.rs', 'lexer/util.rs', 'lexer/parser_error.rs')]


class Broken(Exception):
    pass


def generate(ctx):
    """Regenerates twice. Returns (directory, notes); raises Broken when a generator fails on the checked-in sources."""
    a, b = os.path.join(BUILD, 'regen', 'a'), os.path.join(BUILD, 'regen', 'b')
    regen.copy_repo(a)
    td = cargo(a, 'regen-target', ['--release', '-p', 'lexer-generator'])
    lg = os.path.join(td, 'release', 'lexer-generator')
    regen.copy_repo(b)
    for d in (a, b):
        rc, out = regen.wait_gen(regen.run_gen(lg, d))
        if rc:
            raise Broken(f'lexer generator fails: {out[-400:]}')
    try:
        td = cargo(a, 'regen-target', ['--release', '-p', 'parser-generator'])
    except Inconclusive:
        # is it the regenerated scanner that does not build?
        c = os.path.join(BUILD, 'regen', 'c')
        regen.copy_repo(c)
        try:
            cargo(c, 'regen-target', ['--release', '-p', 'parser-generator'])
        finally:
            shutil.rmtree(c, ignore_errors=True)
        raise Broken('the parser generator does not build with the regenerated scanner')
    pg = os.path.join(td, 'release', 'parser-generator')
    ps = [regen.run_gen(pg, d) for d in (a, b)]
    res = [regen.wait_gen(p) for p in ps]
    for rc, out in res:
        if rc:
            raise Broken(f'parser generator fails: {out[-400:]}')
    fa, fb = regen.tree_files(a), regen.tree_files(b)
    differ = sorted(k for k in set(fa) | set(fb) if fa.get(k) != fb.get(k) and not k.endswith('Cargo.lock'))
    here = regen.tree_files(os.path.join(REPO, 'crates'))
    changed = sorted(k for k in fa if k.startswith('crates/') and here.get(k[7:]) != fa[k])
    return a, differ, changed


def build(a):
    try:
        return regen.harness_for(a, 'regen'), None
    except Inconclusive as e:
        # the hand-written files that the generator copies may have been edited on one side only
        for f in HAND:
            shutil.copy(os.path.join(REPO, f), os.path.join(a, f))
        try:
            return regen.harness_for(a, 'regen'), 'the files copied by the parser generator are not those of the library; kept the library\'s'
        except Inconclusive:
            raise Broken('the regenerated library does not build')


def check(prop):
    r = Result(prop)
    std = vw('std')
    d = scratch(prop)
    # the generators use two cores; the checked-in library runs meanwhile
    pool = ThreadPoolExecutor(1)
    pre = pool.submit(twin.first_run, prop, std, d)
    try:
        try:
            a, differ, changed = generate(r)
            for f in differ[:3]:
                r.violation(f'Nondeterministic: two generations wrote different {f}', [f], driver='c15')
            exe, note = build(a)
        except Broken as e:
            r.violation(f'Broken: {e}', [str(e)], driver='c15')
            r.cov = dict(evaluations=1, distinct_nontrivial=0, rule='generation failed', samples=[str(e)[:300]])
            return r.finish()
        r = twin.check_twin(prop, std, exe, NAMES, r=r, d=d, first=pre.result(), extra_cov=dict(files_differing_between_two_generations=len(differ), files_differing_from_checked_in=changed, note=note))
        r.assume = ['The library is compared with the checked-in one only; that either is right is the business of the other checks.']
        return r.finish()
    finally:
        pool.shutdown()
        shutil.rmtree(d, ignore_errors=True)
        for x in ('a', 'b'):
            shutil.rmtree(os.path.join(BUILD, 'regen', x), ignore_errors=True)


def replay(r):
    if r.get('driver') == 'c15':
        return check('C15')
    a, differ, changed = generate(r)
    return twin.replay_pair(r, 'C15', vw('std'), build(a)[0])
