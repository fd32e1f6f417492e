"""Decide a behavioural property: abstract interpretation of the witness definitions' MIR,
each path simulated against the reference automaton."""
import multiprocessing, os, re, sys, time
sys.setrecursionlimit(20000)
import build, cli, gencost, suite
from absint import Prog
from run import analyse
from report import CannotAnalyse

GENERATED = {'quick': (5000000, 450000), 'thorough': (45000000, 4000000)}     # abstract steps: all of them, one definition
LIMIT = {'quick': 3000000, 'thorough': 12000000}
DEADLINE = {'quick': 330, 'thorough': 760}
AFTER_FIRST = {'quick': 8, 'thorough': 60}
_prog = None
_wanted = None     # which findings are this property's

ASSUME = [
    'the MIR of the nightly compiler at -Zmir-opt-level=0 is what the program does (rustc front end, borrow checker and layout are trusted)',
    'the models of alloc/std library routines in engine/models.py (allocation, Vec, String, OsStr, fmt, iterators)',
    'the reference automaton in engine/spec.py states the property',
    'user conversions (FromStr, TryFrom<&OsStr>, Display) are arbitrary partial functions without side effects',
    'quantification over definitions is represented by the listed definitions, which together use every construct the macros accept',
]


def job(a):
    name, help, limit, entry = a
    t = time.time()
    try:
        r = analyse(_prog[help], name, suite.SUITE[name], help, limit, entry, _wanted)
    except Exception as e:     # an engine failure is reported as undecided, never as a finding
        r = dict(name=name, time=time.time() - t, paths=0, steps=0, wid=0, forks=0, fns=[], stats={}, results=[('unsupported', '%s: %s' % (type(e).__name__, e), '', [])])
    r['help'] = help
    agg = {}
    for k, w, wh, h in r['results']:
        key = (k, w, wh)
        if key not in agg:
            agg[key] = [0, h]
        agg[key][0] += 1
    r['results'] = [(k, w, wh, n, h) for (k, w, wh), (n, h) in agg.items()]
    r['stats'] = {str(k): v for k, v in r['stats'].items()}
    return r


def try_dump(names, help, tag, entry='entry_'):
    return build.dump(tag, cli.rust_crate([(n, suite.SUITE[n]) for n in names], entry == 'parse_'), ('help',) if help else ())


def compile_all(names, help, tag, entry='entry_'):
    """Dump all definitions; on failure find the ones which do not compile. Returns (path, good, {bad: msg})."""
    bad = {}
    names = list(names)
    while True:
        try:
            return try_dump(names, help, tag, entry), names, bad
        except build.BuildError as e:
            msg = str(e)
        # modules named in the messages are the suspects
        src = cli.rust_crate([(n, suite.SUITE[n]) for n in names]).split('\n')
        at, cur = {}, None
        for i, l in enumerate(src, 1):
            m = re.match(r'pub mod (\w+) \{', l)
            if m:
                cur = m.group(1)
            at[i] = cur
        sus = set()
        for m in re.finditer(r'-->\s*src/lib\.rs:(\d+)', msg):
            if at.get(int(m.group(1))):
                sus.add(at[int(m.group(1))])
        if not sus:
            sus = set()
            for n in names:         # find them one by one
                try:
                    try_dump([n], help, tag)
                except build.BuildError as e2:
                    sus.add(n)
            if not sus:
                raise CannotAnalyse('the definitions do not compile together:\n' + msg[-1500:])
        for n in sus:
            try:
                try_dump([n], help, tag)
            except build.BuildError as e2:
                bad[n] = first_error(str(e2))
        left = [n for n in names if n not in bad]
        if len(left) == len(names):
            raise CannotAnalyse('the definitions do not compile together:\n' + msg[-1500:])
        names = left
        if not names:
            return None, [], bad


def first_error(msg):
    m = re.search(r'^error.*(?:\n.*){0,6}', msg, re.M)
    return m.group(0) if m else msg[-600:]


def run_suite(names, helps, tier, on_result, stop, tag='', entry='entry_'):
    """Analyse definitions; calls on_result(r). Returns (undecided-by-deadline, bad)."""
    global _prog
    _prog = {}
    good, bad = {}, {}
    for h in helps:
        path, g, b = compile_all(names, h, 'w%s%d' % (tag, h), entry)
        if path is None:
            raise_if_broken(h)
        good[h] = g
        for k, v in b.items():
            bad[k, h] = v
        if path:
            _prog[h] = Prog(path)
    cost = {n: i for i, n in enumerate(names)}
    jobs = [(n, h, LIMIT[tier], entry) for h in helps for n in good[h]]
    t0 = time.time()
    first = None
    pending = {(n, h) for n, h, _, _ in jobs}
    ctx = multiprocessing.get_context('fork')
    pool = ctx.Pool(min(8, os.cpu_count() or 1, max(1, len(jobs))))
    try:
        it = pool.imap_unordered(job, order(jobs), 1)
        while pending:
            left = DEADLINE[tier] - (time.time() - t0)
            if first is not None:
                left = min(left, AFTER_FIRST[tier] - (time.time() - first))
            if left <= 0:
                break
            try:
                r = it.next(timeout=left)
            except multiprocessing.TimeoutError:
                break
            except StopIteration:
                break
            pending.discard((r['name'], r['help']))
            on_result(r)
            if first is None and stop():
                first = time.time()
    finally:
        pool.terminate()
        pool.join()
    return pending, bad


HEAVY = 'global flatdeep defaults2 style hidden globflat flat flattwo global2 subopt globdeep subsub shorts hyphennum sub subreq'.split()


def order(jobs):
    return sorted(jobs, key=lambda j: HEAVY.index(j[0]) if j[0] in HEAVY else 99)


def raise_if_broken(help):
    try:
        build.dump('probe', '#![allow(unused)]\npub fn f() {}\n', ('help',) if help else ())
    except build.BuildError as e:
        raise CannotAnalyse('palc itself does not build: ' + first_error(str(e)))


def check(r, kind, entry='entry_'):
    global _wanted
    _wanted = lambda k, w: k in kind.kinds and (k != 'violation' or kind.clause(w[0]))
    tier = r.tier
    names = kind.names if tier == 'quick' else kind.more
    if getattr(kind, 'gen', ''):
        total, each = GENERATED[tier]
        names = names + gencost.pick(kind.gen, total // len(kind.gen.split()), each)
    helps = kind.help if tier == 'quick' else kind.more_help
    cov = dict(definitions=[], undecided=[], evaluations=0, paths=0, steps=0, fixpoint_joins=0, functions=set(), obligations_by_kind={})
    samples = []

    def on_result(x):
        und = sorted({w for k, w, wh, n, h in x['results'] if k == 'unsupported'})
        tag = x['name'] + ('' if x['help'] else ' (without help)')
        if und:
            cov['undecided'].append('%s: %s' % (tag, und[0][:200]))
        else:
            cov['definitions'].append(tag)
        cov['paths'] += x['paths']
        cov['steps'] += x['steps']
        cov['fixpoint_joins'] += x['wid']
        cov['functions'] |= {n for c, n in x['fns'] if c in ('palc', 'wit')}
        for k, v in x['stats'].items():
            cov['obligations_by_kind'][k] = cov['obligations_by_kind'].get(k, 0) + v
        for k, w, wh, n, h in x['results']:
            if k == 'return':
                cov['evaluations'] += n
            if k == 'violation' and 'violation' in kind.kinds and kind.clause(w[0]):
                r.violation('%s/%s' % (x['name'], w[0]), '%s: definition `%s`: %s; on the arguments [%s]; at %s' % (w[0], tag, w[1], ', '.join(map(str, h)), wh),
                            definition=suite.SUITE[x['name']].decl_rust(True), arguments=[str(a) for a in h], at=wh, paths=n)
            if k == 'panic' and 'panic' in kind.kinds:
                r.violation('%s/panic/%s' % (x['name'], str(w)[:60]), 'panic: definition `%s`: %s; on the arguments [%s]; at %s' % (tag, w, ', '.join(map(str, h)), wh),
                            definition=suite.SUITE[x['name']].decl_rust(True), arguments=[str(a) for a in h], at=wh, paths=n)
            if k == 'violation' or k == 'panic':
                cov['evaluations'] += n
        if len(samples) < 4 and x['results']:
            k, w, wh, n, h = x['results'][0]
            samples.append('%s: %d paths end with %s' % (tag, n, w))

    late, bad = run_suite(names, helps, tier, on_result, lambda: bool(r.viol), entry=entry)
    for (n, h), msg in bad.items():
        r.violation('%s/compile' % n, 'definition `%s`, which the macros accept today, no longer compiles: %s' % (n, msg.split('\n')[0]), definition=suite.SUITE[n].decl_rust(True), error=msg)
    for n, h in sorted(late):
        cov['undecided'].append('%s%s: not finished' % (n, '' if h else ' (without help)'))
    cov['functions'] = sorted(cov['functions'])
    cov['functions_analysed'] = len(cov['functions'])
    cov['definitions_decided'] = len(cov['definitions'])
    cov['samples'] = samples
    cov['explanation'] = ('%d definitions decided for every argument list (%d undecided): %d abstract paths to an exit, %d fixpoint joins, %d functions of the tree interpreted'
                          % (len(cov['definitions']), len(cov['undecided']), cov['paths'], cov['fixpoint_joins'], len(cov['functions'])))
    r.coverage = cov
    r.assume = ASSUME
    if not cov['definitions'] and not r.viol:
        raise CannotAnalyse('no definition could be decided: %s' % '; '.join(cov['undecided'][:3]))
