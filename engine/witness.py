"""Compile-time witnesses: small programs which must, or must not, be accepted by the compiler
together with the current tree. Nothing that is built is ever run."""
import concurrent.futures, json, os, re, shutil, subprocess
import build
from report import CannotAnalyse

TIMEOUT = 60


class Lib:
    """palc and palc-derive built once from the current tree."""

    def __init__(self, features=('help',), name='cf'):
        d = build.crate_dir(name, {'lib.rs': ''}, features)
        t = os.path.join(d, 'target')
        r = build.sh(['cargo', '+nightly', 'build', '--offline', '--message-format=json', '--target-dir', t], cwd=d, env=build.env())
        if r.returncode:
            raise CannotAnalyse('palc itself does not build: ' + r.stdout[-1500:])
        self.rlib, self.paths = None, set()
        for l in r.stdout.split('\n'):
            if l.startswith('{'):
                j = json.loads(l)
                if j.get('reason') == 'compiler-artifact':
                    self.paths |= {os.path.dirname(f) for f in j['filenames']}
                if j.get('reason') == 'compiler-artifact' and j['target']['name'] == 'palc':
                    self.rlib = [f for f in j['filenames'] if f.endswith(('.rlib', '.rmeta'))]
        if not self.rlib:
            raise CannotAnalyse('no palc library was built')
        self.dir = os.path.join(d, 'w')
        os.makedirs(self.dir)

    def compile(self, id, src):
        """(accepted, output). Code is generated, as some checks are constants evaluated only then."""
        d = os.path.join(self.dir, re.sub(r'\W+', '_', id))
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, 'w.rs')
        with open(p, 'w') as f:
            f.write(src)
        cmd = ['rustc', '+nightly', '--edition', '2024', '--crate-type', 'lib', '--emit=obj', '--cap-lints', 'allow', '-Copt-level=0', '-Cdebuginfo=0', '-Clink-dead-code', '--error-format=short',
               *[x for f in sorted(self.paths) for x in ('-L', 'dependency=' + f)], *[x for f in self.rlib for x in ('--extern', 'palc=' + f)], '-o', os.path.join(d, 'w.o'), p]
        e = build.env(CARGO_PKG_NAME='wit', CARGO_PKG_DESCRIPTION='Description of the package.', CARGO_PKG_VERSION='0.0.0', RUST_BACKTRACE='0')
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=d, timeout=TIMEOUT)
            rc, out = r.returncode, r.stdout.decode('utf-8', 'replace')
        except subprocess.TimeoutExpired:
            rc, out = 'timeout', 'the compiler did not finish within %d s' % TIMEOUT
        shutil.rmtree(d, ignore_errors=True)
        return rc, out

    def many(self, items):
        """[(id, src)] -> {id: (rc, output)}"""
        out = {}
        with concurrent.futures.ThreadPoolExecutor(min(8, os.cpu_count() or 1)) as ex:
            for (i, s), res in zip(items, ex.map(lambda x: self.compile(*x), items)):
                out[i] = res
        return out


CRASH = re.compile(r'proc-macro derive panicked|proc macro panicked|custom attribute panicked|internal compiler error|unexpectedly panicked|overflowed its stack|did not finish within|proc-macro derive produced unparsable tokens|SIGSEGV|SIGABRT')


def crashed(res):
    rc, out = res
    if rc == 'timeout' or (isinstance(rc, int) and (rc < 0 or rc > 100 and rc != 101)):
        return out.strip().split('\n')[-1][:300] or 'the compiler ended with status %s' % rc
    m = CRASH.search(out)
    if m:
        a = out.rfind('\n', 0, m.start()) + 1
        return out[a:a + 400].strip()
    return None


def first(out):
    m = re.search(r'^.*\berror\b.*$', out, re.M)
    return (m.group(0) if m else out.strip()[:200])[:300]
