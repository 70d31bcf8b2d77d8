"""Build the facts of /repo's current working tree (compiler driver over the real build), cached by content."""
import fcntl
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, '.cache')
REPO = os.environ.get('VP_REPO', '/repo')


def tree_hash(paths):
    h = hashlib.sha256()
    for root in paths:
        if os.path.isfile(root):
            fs = [root]
        else:
            fs = [os.path.join(d, x) for d, _, xs in os.walk(root) for x in xs if '__pycache__' not in d and '/target' not in d]
        for p in sorted(fs):
            h.update(p.encode() + b'\0')
            with open(p, 'rb') as f:
                h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]


def repo_key():
    return tree_hash([os.path.join(REPO, x) for x in ('src', 'Cargo.toml', 'Cargo.lock') if os.path.exists(os.path.join(REPO, x))] + [os.path.join(VERIF, 'driver', 'src'), os.path.join(VERIF, 'driver', 'Cargo.toml')])


def env():
    e = dict(os.environ)
    out = subprocess.run(['bash', '-c', '. /opt/vp/env.sh >/dev/null 2>&1; env -0'], capture_output=True, env=e).stdout
    for kv in out.split(b'\0'):
        if b'=' in kv:
            k, v = kv.decode().split('=', 1)
            e[k] = v
    for k in ('RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'CARGO_TARGET_DIR', 'RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS'):
        e.pop(k, None)
    e['CARGO_INCREMENTAL'] = '0'
    e['CARGO_PROFILE_DEV_DEBUG'] = '0'
    return e


def fail(msg, out=''):
    sys.stderr.write(msg + '\n' + out[-4000:] + '\n')
    raise SystemExit(3)


def build():
    """-> (path of the facts file, key)"""
    os.makedirs(CACHE, exist_ok=True)
    key = repo_key()
    d = os.path.join(CACHE, 'f-' + key)
    out = os.path.join(d, 'facts.json')
    if os.path.exists(out):
        return out, key
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out):
            return out, key
        e = env()
        drv = os.path.join(CACHE, 'drv')
        tgt = os.path.join(CACHE, 'tgt')
        for old in os.listdir(CACHE):
            if old.startswith('f-') and len(os.listdir(CACHE)) > 12:
                shutil.rmtree(os.path.join(CACHE, old), ignore_errors=True)
        a = subprocess.Popen(['cargo', '+nightly', 'build', '--offline', '--locked', '--manifest-path', os.path.join(VERIF, 'driver', 'Cargo.toml')],
                             env=dict(e, CARGO_TARGET_DIR=drv), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        sysroot = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], env=e, capture_output=True, text=True, cwd=VERIF).stdout.strip()
        # the driver is injected for the workspace crate only; dependencies are checked by the plain compiler meanwhile
        wrap = os.path.join(CACHE, 'wrap.sh')
        with open(wrap, 'w') as f:
            f.write('#!/bin/sh\n# waits for the driver (built at the same time), then analyses the workspace crate with it\n'
                    'i=0; while [ ! -e "%s" ]; do i=$((i+1)); [ $i -gt 3000 ] && exit 99; sleep 0.1; done\nexec "%s" "$@"\n' % (os.path.join(CACHE, 'drv.ok'), os.path.join(drv, 'debug', 'vpfacts')))
        os.chmod(wrap, 0o755)
        okf = os.path.join(CACHE, 'drv.ok')
        if os.path.exists(okf):
            os.unlink(okf)
        tmp = os.path.join(CACHE, 'facts.tmp')
        if os.path.exists(tmp):
            os.unlink(tmp)
        subprocess.run(['cargo', '+nightly', 'clean', '--offline', '-p', 'vatsim-parser', '--manifest-path', os.path.join(REPO, 'Cargo.toml')],
                       env=dict(e, CARGO_TARGET_DIR=tgt), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        b = subprocess.Popen(['cargo', '+nightly', 'check', '--lib', '--locked', '--offline', '--manifest-path', os.path.join(REPO, 'Cargo.toml')],
                             env=dict(e, CARGO_TARGET_DIR=tgt, RUSTC_WORKSPACE_WRAPPER=wrap, VPFACTS_OUT=tmp, LD_LIBRARY_PATH=sysroot + '/lib'),
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        o = a.communicate()[0]
        if a.returncode:
            b.kill()
            fail('the analysis driver does not build', o)
        open(okf, 'w').close()
        o = b.communicate()[0]
        if b.returncode or not os.path.exists(tmp):
            fail('the crate does not build under the analysis driver', o)
        os.makedirs(d, exist_ok=True)
        os.rename(tmp, out)
    return out, key


if __name__ == '__main__':
    print(*build())
