"""A copy of /repo in which the generators can write, and the library built from what they wrote."""
import os, shutil, subprocess
from vlib import *


def copy_repo(dst, only=None):
    """Copies /repo's working tree without .git and build output."""
    shutil.rmtree(dst, ignore_errors=True)
    ign = shutil.ignore_patterns('.git', 'target', 'node_modules', '.build')
    os.makedirs(dst)
    for e in sorted(os.listdir(REPO)):
        if e in ('.git', 'target', 'tmp', 'demo', '.github'):
            continue
        s = os.path.join(REPO, e)
        if os.path.isdir(s):
            shutil.copytree(s, os.path.join(dst, e), ignore=ign, symlinks=True)
        else:
            shutil.copy2(s, os.path.join(dst, e))


def run_gen(exe, cwd, timeout=700):
    p = subprocess.Popen([exe], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', preexec_fn=lambda: os.setpgid(0, 0))
    return p


def wait_gen(p, timeout=700):
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        raise Inconclusive('a generator did not finish in time')
    return p.returncode, out


def tree_files(d):
    r = {}
    for base, dirs, files in os.walk(d):
        dirs[:] = [x for x in dirs if x not in ('target', '.git')]
        for f in files:
            p = os.path.join(base, f)
            r[os.path.relpath(p, d)] = open(p, 'rb').read()
    return r


def harness_for(lib, name, features=('std-build',)):
    """Builds the harness against another copy of the library."""
    hd = os.path.join(BUILD, 'harness-' + name)
    os.makedirs(hd, exist_ok=True)
    t = open(os.path.join(VERIF, 'harness', 'Cargo.toml')).read()
    t = t.replace('/repo/crates/postgresql-cst-parser', os.path.join(lib, 'crates/postgresql-cst-parser')).replace('../core', os.path.join(VERIF, 'core'))
    with open(os.path.join(hd, 'Cargo.toml'), 'w') as f:
        f.write(t)
    src = os.path.join(hd, 'src')
    if not os.path.islink(src):
        os.symlink(os.path.join(VERIF, 'harness', 'src'), src)
    lock = os.path.join(VERIF, 'harness', 'Cargo.lock')
    if os.path.exists(lock):
        shutil.copy(lock, os.path.join(hd, 'Cargo.lock'))
    td = cargo(hd, 'h-' + name, ['--release', '--bin', 'vw', '--no-default-features', '--features', ','.join(features)])
    return os.path.join(td, 'release', 'vw')
