"""Build the MIR dump of /repo's current working tree and load it.

The driver (driver/main.rs) is a rustc_private program injected through
RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`; it writes the resolved MIR of
every body of the workspace crate (library and binary).  Nothing of /repo is executed.
"""
import hashlib, json, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')


class CheckError(Exception):
    """The check itself cannot give an answer (e.g. the repository does not compile)."""


def _sh(cmd, env=None, **kw):
    return subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def _hash_files(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(b'\0')
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]


def repo_files(repo=None):
    repo = repo or REPO
    out = []
    for root, dirs, files in os.walk(repo):
        dirs[:] = sorted(d for d in dirs if d not in ('.git', 'target'))
        if root == repo:
            dirs[:] = [d for d in dirs if d not in ('tools', 'docs')]
        for f in files:
            p = os.path.join(root, f)
            if os.path.isfile(p):
                out.append(p)
    return out


def sysroot():
    r = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], stdout=subprocess.PIPE, text=True)
    if r.returncode != 0:
        raise CheckError('no nightly toolchain')
    return r.stdout.strip()


def build_driver():
    src = os.path.join(VERIF, 'driver', 'main.rs')
    key = _hash_files([src])
    os.makedirs(BUILD, exist_ok=True)
    exe = os.path.join(BUILD, 'mirdump-' + key)
    if os.path.exists(exe):
        return exe
    sr = sysroot()
    tmp = tempfile.mkdtemp(dir=BUILD)
    try:
        t = os.path.join(tmp, 'mirdump')
        r = _sh(['rustc', '+nightly', '-O', '--edition', '2021', src, '-o', t, '-C', 'link-arg=-Wl,-rpath,%s/lib' % sr], cwd=tmp)
        if r.returncode != 0:
            raise CheckError('the MIR driver does not build:\n' + r.stdout[-3000:])
        os.rename(t, exe)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return exe


def make_dump():
    """Return the directory holding svgcleaner.lib.json and svgcleaner.bin.json for the current tree."""
    exe = build_driver()
    key = _hash_files(repo_files() + [os.path.join(VERIF, 'driver', 'main.rs')])
    out = os.path.join(BUILD, 'dump-' + key)
    if os.path.isdir(out):
        return out
    tmp = tempfile.mkdtemp(dir=BUILD)
    try:
        od = os.path.join(tmp, 'out'); os.makedirs(od)
        env = dict(os.environ)
        for v in ('RUSTC_WRAPPER', 'RUSTC', 'RUSTUP_TOOLCHAIN', 'CARGO_BUILD_TARGET', 'CARGO_ENCODED_RUSTFLAGS'):
            env.pop(v, None)
        env.update(MIRDUMP_OUT=od, CARGO_TARGET_DIR=os.path.join(tmp, 'target'), RUSTC_WORKSPACE_WRAPPER=exe,
                   CARGO_PROFILE_DEV_PANIC='abort', CARGO_PROFILE_DEV_DEBUG='0', CARGO_INCREMENTAL='0',
                   RUSTFLAGS='-Zmir-opt-level=0 --cap-lints allow', LD_LIBRARY_PATH=sysroot() + '/lib')
        r = _sh(['cargo', '+nightly', 'check', '--offline', '--locked', '--manifest-path', os.path.join(REPO, 'Cargo.toml')], env=env, cwd=tmp)
        files = sorted(os.listdir(od))
        if r.returncode != 0 or 'svgcleaner.lib.json' not in files or 'svgcleaner.bin.json' not in files:
            raise CheckError('cannot compile %s for analysis:\n%s' % (REPO, r.stdout[-4000:]))
        try:
            os.rename(od, out)
        except OSError:
            if not os.path.isdir(out):
                raise
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    # keep the cache small
    olds = sorted((os.path.join(BUILD, d) for d in os.listdir(BUILD) if d.startswith('dump-')), key=os.path.getmtime)
    for o in olds[:-6]:
        if o != out:
            shutil.rmtree(o, ignore_errors=True)
    return out


if __name__ == '__main__':
    print(make_dump())
