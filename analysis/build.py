"""Builds the MIR driver and dumps the type-checked program of /repo."""
import glob
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.environ.get('VP_BUILD', os.path.join(VERIF, 'build'))


class BuildError(Exception):
    pass


def run(cmd, cwd, env):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError('%s failed:\n%s' % (' '.join(cmd), p.stdout[-4000:]))
    return p.stdout


def env0():
    e = dict(os.environ)
    e['CARGO_NET_OFFLINE'] = 'true'
    for k in ('RUSTC_WORKSPACE_WRAPPER', 'RUSTC_WRAPPER', 'CARGO_TARGET_DIR', 'RUSTFLAGS', 'RUSTDOCFLAGS'):
        e.pop(k, None)
    return e


def driver():
    e = env0()
    e['CARGO_TARGET_DIR'] = os.path.join(BUILD, 'driver')
    run(['cargo', '+nightly', 'build', '--release', '--offline', '-q'], os.path.join(VERIF, 'mirdump'), e)
    return os.path.join(BUILD, 'driver', 'release', 'mirdump')


def dump():
    """returns the directory with lib-rawloader.json and bin-*.json"""
    os.makedirs(BUILD, exist_ok=True)
    d = driver()
    out = os.path.join(BUILD, 'dump')
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    ct = os.path.join(BUILD, 'ct')
    # the wrapper only runs when cargo thinks the crate is stale
    for pat in ('debug/.fingerprint/rawloader-*', 'debug/build/rawloader', 'debug/build/rawloader-*', 'debug/incremental'):
        for f in glob.glob(os.path.join(ct, pat)):
            shutil.rmtree(f, ignore_errors=True)
    e = env0()
    e['CARGO_TARGET_DIR'] = ct
    e['RUSTFLAGS'] = '-A semicolon_in_expressions_from_macros'
    e['MIRDUMP_OUT'] = out
    e['RUSTC_WORKSPACE_WRAPPER'] = d
    root = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], stdout=subprocess.PIPE, text=True).stdout.strip()
    e['LD_LIBRARY_PATH'] = root + '/lib'
    run(['cargo', '+nightly', 'check', '--offline', '--lib', '--bins', '-q'], REPO, e)
    p = os.path.join(out, 'lib-rawloader.json')
    if not os.path.exists(p):
        raise BuildError('driver produced no dump')
    return out


if __name__ == '__main__':
    print(dump() if len(sys.argv) < 2 else driver())
