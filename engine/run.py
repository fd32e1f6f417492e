import sys, time, json, os, multiprocessing
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from collections import Counter
import absint
from absint import *
import models, spec, suite, build, cli


def analyse(prog, name, struct, help, limit, entry='entry_', wanted=None):
    sp = spec.Spec(struct, help, entry == 'parse_')
    ip = Interp(prog, models.Models(prog), sp, limit)
    if wanted:
        ip.wanted = wanted
    key = [k for k, f in prog.fnj.items() if f['name'].rsplit('::', 1)[-1] == entry + name][0]
    st = State()
    st.spec = sp.init()
    ip.push(st, prog.fn(key), [models.ENV] if entry == 'entry_' else [], None, None)
    t = time.time()
    try:
        ip.run(st)
    except Unsupported as u:
        ip.results.append(('unsupported', str(u), '', []))
    return dict(name=name, time=time.time() - t, paths=ip.paths, steps=ip.total, wid=ip.widenings, forks=ip.forks,
                fns=sorted(ip.fns_seen), stats=sp.stats,
                results=[(k, w, wh, h) if k != 'return' else (k, w, '', None) for k, w, wh, h in ip.results])


if __name__ == '__main__':
    names = [x for x in sys.argv[1:] if not x.startswith('-')] or list(suite.SUITE)
    help = '--nohelp' not in sys.argv
    entry = 'parse_' if '--parse' in sys.argv else 'entry_'
    clis = [(n, suite.SUITE[n]) for n in names]
    t = time.time()
    out = build.dump('dev', cli.rust_crate(clis, entry == 'parse_'), ('help',) if help else ())
    prog = Prog(out)
    print('build %.1f load; size %dk' % (time.time() - t, os.path.getsize(out) >> 10))

    def go(n):
        return analyse(prog, n, suite.SUITE[n], help, int(os.environ.get("LIMIT", "600000")), entry)
    with multiprocessing.get_context('fork').Pool(8) as pool:
        for r in pool.imap_unordered(go, names, 1):
            print('%s: %.1fs paths %d steps %d wid %d forks %d' % (r['name'], r['time'], r['paths'], r['steps'], r['wid'], r['forks']))
            c = Counter((k, str(w)[:260], wh) for k, w, wh, h in r['results'])
            ex = {}
            for k, w, wh, h in r['results']:
                ex.setdefault((k, str(w)[:260], wh), h)
            for k, n in sorted(c.items(), key=lambda x: (x[0][0] == 'return', -x[1]))[:30]:
                print('   ', n, k, '' if k[0] == 'return' else ex[k])
