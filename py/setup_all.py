"""Builds what the checks need, so that a check only rebuilds what depends on the library."""
import os, shutil, threading
from vlib import *


def attempt(f, *a):
    try:
        f(*a)
    except Exception as e:  # the check that needs it reports what is wrong
        log(f'setup: {e}')


def sanitizers():
    import c11
    cargo(c11.HD, 'h-std', ['--release', '--bin', 'mem', '--bin', 'cost'])
    ths = [threading.Thread(target=attempt, args=(c11.sanitized, k)) for k in ('address', 'memory', 'thread')]
    for t in ths:
        t.start()
    d = scratch('setup')
    p = os.path.join(d, 'in')
    c11.pack(p, [';'])
    c11.miri_tool().run(p, ['plain', '1'], p + '.out')
    for t in ths:
        t.join()
    shutil.rmtree(d, ignore_errors=True)


def others():
    import c14, c16, c18
    cargo(os.path.join(REPO, 'crates', 'postgresql-cst-parser'), 'h-cli', ['--release', '--bin', 'parse'])
    cargo(c14.FRONT, 'h-front', ['--release'])
    c16.exe()
    cargo(c18.CRATE, 'h-autom', ['--release', '--bin', 'flexgen'])


def generators():
    import regen
    a = os.path.join(BUILD, 'regen', 'a')
    regen.copy_repo(a)
    try:
        cargo(a, 'regen-target', ['--release', '-p', 'lexer-generator', '-p', 'parser-generator'])
    finally:
        shutil.rmtree(a, ignore_errors=True)


def main():
    for v in ('std', 'keep', 'regex'):
        vw(v)
    for f in (others, generators, sanitizers):
        attempt(f)
    return 0
