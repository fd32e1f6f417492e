"""gencost.py CLASSES FROM TO: analyse generated definitions on the current tree and record in gencost.json how many
abstract steps each needs. The checks take the cheapest ones; a definition which is not recorded is not used."""
import json, multiprocessing, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
TABLE = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'gencost.json')


def load():
    return json.load(open(TABLE)) if os.path.exists(TABLE) else {}


def pick(cls, steps, each):
    """Generated definitions of the classes, `steps` abstract steps per class in total and at most `each` for one."""
    import gen
    table, out = load(), []
    for c in cls.split():
        left = steps
        for n in range(10000):
            s = table.get('g_%s_%d' % (c, n))
            if s is None:
                if n > 999:
                    break
                continue
            if s <= each and s <= left:
                left -= s
                out.append(gen.get(c, n))
    return out


def main():
    import behave, build, cli, gen, suite
    from absint import Prog
    classes, a, b = sys.argv[1].split(','), int(sys.argv[2]), int(sys.argv[3])
    limit = int(os.environ.get('LIMIT', '1500000'))
    for c in classes:
        names = [gen.get(c, n) for n in range(a, b)]
        behave._prog = {True: Prog(build.dump('gcost', cli.rust_crate([(n, suite.SUITE[n]) for n in names]), ('help',)))}
        got = {}
        with multiprocessing.get_context('fork').Pool(8) as p:
            for r in p.imap_unordered(behave.job, [(n, True, limit, 'entry_') for n in names], 1):
                bad = [x for x in r['results'] if x[0] != 'return']
                print('%s %.1fs steps %d paths %d' % (r['name'], r['time'], r['steps'], r['paths']), flush=True)
                for x in bad[:3]:
                    print('    ', str(x)[:500], flush=True)
                if not bad:
                    got[r['name']] = r['steps']
        t = load()
        for n in names:
            t.pop(n, None)
        t.update(got)
        json.dump(dict(sorted(t.items(), key=lambda x: (x[0].rsplit('_', 1)[0], int(x[0].rsplit('_', 1)[1])))), open(TABLE, 'w'), indent=0)


if __name__ == '__main__':
    main()
