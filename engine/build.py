"""Expand, compile and dump a witness crate with the current tree of /repo."""
import hashlib, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
WORK = os.path.join(VERIF, '.work')
DRIVER = os.path.join(VERIF, 'driver/target/release/mirdump')
FLAGS = '-Zalways-encode-mir -Zmir-opt-level=0 -Zub-checks=no'


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def sysroot():
    return sh(['rustc', '+nightly', '--print', 'sysroot']).stdout.strip()


def driver():
    src = os.path.join(VERIF, 'driver/src/main.rs')
    if not os.path.exists(DRIVER) or os.path.getmtime(DRIVER) < os.path.getmtime(src):
        print('building the driver', flush=True)
        r = sh(['cargo', '+nightly', 'build', '--release', '--offline'], cwd=os.path.join(VERIF, 'driver'))
        if r.returncode:
            sys.exit('cannot build the driver:\n' + r.stdout)
    return DRIVER


def repo_hash():
    h = hashlib.sha256()
    for base, dirs, files in os.walk(REPO):
        dirs[:] = sorted(x for x in dirs if x not in ('target', '.git') and os.path.join(base, x) != '/repo/.vp')
        for f in sorted(files):
            if f.endswith(('.rs', '.toml', '.lock')):
                p = os.path.join(base, f)
                h.update(p.encode() + b'\0' + open(p, 'rb').read() + b'\0')
    return h.hexdigest()[:16]


def crate_dir(name, files, features):
    """Write a crate with a path dependency on the analysed tree."""
    d = os.path.join(WORK, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, 'src'))
    with open(os.path.join(d, 'Cargo.toml'), 'w') as f:
        f.write('[package]\nname = "wit"\nversion = "0.0.0"\nedition = "2024"\ndescription = "Description of the package."\n[lib]\npath = "src/lib.rs"\n[workspace]\n'
                '[dependencies]\npalc = { path = "%s", default-features = false, features = [%s] }\n' % (REPO, ', '.join('"%s"' % x for x in features)))
    lock = os.path.join(REPO, 'Cargo.lock')
    if os.path.exists(lock):
        shutil.copy(lock, os.path.join(d, 'Cargo.lock'))
    for p, t in files.items():
        with open(os.path.join(d, 'src', p), 'w') as f:
            f.write(t)
    return d


def env(**k):
    e = dict(os.environ)
    lib = sysroot() + '/lib'
    e['LD_LIBRARY_PATH'] = lib + (':' + e['LD_LIBRARY_PATH'] if e.get('LD_LIBRARY_PATH') else '')
    e['CARGO_TERM_COLOR'] = 'never'
    e.pop('RUSTC_WRAPPER', None)
    e.update(k)
    return e


class BuildError(Exception):
    pass


def dump(name, src, features=('help',)):
    """Returns the path of the dump of the witness crate."""
    driver()
    d = crate_dir(name, {'lib.rs': src}, features)
    out = os.path.join(d, 'out.json')
    e = env(RUSTC_WRAPPER=DRIVER, RUSTFLAGS=FLAGS, MIRDUMP_OUT=out, MIRDUMP_CRATE='wit', MIRDUMP_DEEP='palc,palc_derive')
    r = sh(['cargo', '+nightly', 'check', '--offline', '--target-dir', os.path.join(d, 'target')], cwd=d, env=e)
    if r.returncode or not os.path.exists(out):
        raise BuildError(r.stdout[-6000:])
    return out


if __name__ == '__main__':
    driver()
