"""C16: effects of parsing, over the call graph of the compiled definitions.

Everything reachable from `try_parse_from`, from the Display of its error and from `try_into_help`
(for all definitions of the suite, direct calls, function pointers and trait objects alike) is
searched for calls with an effect outside the values handed in, and for global state. The entry
`Parser::parse` is simulated: what is printed where and how the process ends is compared with the
reference automaton."""
import re, json
import build, cli, suite, behave, props
from absint import Prog
from report import CannotAnalyse

# What counts as an effect. Matched against the path of the callee.
EFFECTS = [
    (r'\bstd::env::(?!args_os|ArgsOs)', 'reads or changes the environment of the process'),
    (r'\bstd::env::(args_os|ArgsOs)', 'reads the process arguments'),
    (r'\bstd::fs\b', 'uses the file system'),
    (r'\bstd::path::Path::(exists|try_exists|is_file|is_dir|is_symlink|metadata|symlink_metadata|canonicalize|read_dir|read_link)\b|\bstd::path::absolute', 'uses the file system'),
    (r'\bstd::io::(stdio\b|stdin|stdout|stderr|Std|_print|_eprint|is_terminal|IsTerminal|read_to_string|set_output_capture)', 'uses a standard stream'),
    (r'\bstd::process::(?!ExitCode|Termination)', 'acts on a process'),
    (r'\bstd::thread::(?!panicking)', 'uses threads or thread-local state'),
    (r'\bstd::time::(Instant|SystemTime)::(now|elapsed)', 'reads a clock'),
    (r'\bstd::net\b', 'uses the network'),
    (r'\bstd::os::(?!unix::ffi|fd::raw)', 'talks to the operating system'),
    (r'\bstd::(hash|collections::hash_map)::RandomState::new|std::random', 'draws random keys from the operating system'),
    (r'\bstd::panic::(set_hook|take_hook)', 'changes the panic hook of the process'),
    (r'\bstd::alloc::(set_alloc_error_hook)', 'changes a hook of the process'),
    (r'\bstd::sync::mpsc\b|\bstd::sync::(Barrier|Condvar)\b', 'synchronises with other threads'),
    (r'\bstd::sys\b|\blibc::', 'talks to the operating system'),
]
EFFECTS = [(re.compile(a), b) for a, b in EFFECTS]


def effect_of(path):
    for rx, what in EFFECTS:
        if rx.search(path):
            return what
    return None


def callees(f):
    """(callee record or function reference, span) of a body."""
    for b in f['blocks']:
        t = b['t']['k']
        if t and t[0] == '?' and 'InlineAsm' in str(t[1]):
            yield {'def': 'inline assembly', 'asm': True}, b['t'].get('s')
        for s in list(b['s']) + [t]:
            yield from refs(s, b['t'].get('s'))


def refs(x, span):
    if isinstance(x, dict):
        if 'def' in x and 'k' in x:
            yield x, span
        if 'static' in x:
            yield {'static': x['static']}, span
        for v in x.values():
            yield from refs(v, span)
    elif isinstance(x, list):
        if len(x) == 2 and x[0] == 'tls' and isinstance(x[1], str):
            yield {'static': x[1], 'tls': True}, span
        for v in x:
            yield from refs(v, span)


def graph(path):
    j = json.load(open(path))
    fns = {f['key']: f for f in j['fns']}
    statics = {s['n']: s for s in j['statics']}
    return fns, statics


def roots(fns, prefix):
    return [k for k, f in fns.items() if f['name'].rsplit('::', 1)[-1].startswith(prefix)]


def chain(prev, k, fns):
    out = []
    while k is not None and len(out) < 12:
        out.append(fns[k]['name'])
        k = prev.get(k)
    return list(reversed(out))


def scan(r, path, cov, tag):
    fns, statics = graph(path)
    prev = {k: None for k in roots(fns, 'entry_')}
    edges = {}
    for k, f in fns.items():
        edges[k] = list(callees(f))
    todo = list(prev)
    while todo:
        k = todo.pop(0)
        for c, sp in edges[k]:
            n = c.get('key')
            if n in fns and n not in prev:
                prev[n] = k
                todo.append(n)
    for k, f in fns.items():
        if f['name'].split('::')[-1].startswith(('env_', 'user_')) and f['crate'] == 'wit':
            continue            # the user's own conversions
        cov['functions'].add(f['name'] if f['crate'] in ('palc',) else f['crate'] + ' code')
        cov['bodies'] += 1
        for c, sp in edges[k]:
            cov['sites'] += 1
            where = '%s (%s)' % (f['name'], sp)
            via = chain(prev, k, fns) if k in prev else ['... (through a trait object)', f['name']]
            if 'static' in c:
                s = statics.get(c['static'])
                if s is None or s['mut'] or not s['freeze'] or s['tls'] or c.get('tls') or s['foreign']:
                    if s and s['crate'] not in ('palc', 'wit'):
                        continue
                    r.violation('static/%s' % c['static'], 'effect: %s uses the mutable global state `%s` while parsing; called through %s' % (where, c['static'], ' > '.join(via)), at=where, path=via)
                continue
            names = [c['def'], c.get('idef') or '', c.get('inst') or '']
            what = None
            if c.get('asm'):
                what = 'runs inline assembly'
            elif c.get('foreign'):
                what = 'calls a foreign function'
            elif c.get('def') == 'std::intrinsics::abort':
                what = None if f['crate'] in ('core', 'alloc', 'std') else 'aborts the process'
            else:
                for n in names[:2]:
                    what = what or effect_of(n.split('::<')[0].lstrip('<&'))
                if what is None and names[2].startswith('<std::') and ' as ' in names[2]:
                    what = effect_of(names[2].split(' as ')[0].lstrip('<&').split('<')[0] + '::')
            if what:
                r.violation('call/%s/%s' % (f['name'].split('<')[0], c['def']), 'effect: %s %s (calls %s) while parsing; called through %s' % (where, what, c.get('inst') or c['def'], ' > '.join(via)), at=where, path=via)


class Effects:
    technique = 'effect analysis over the call graph of the MIR, and abstract interpretation of Parser::parse'
    note = ('Call graph of all definitions of the suite as compiled (direct calls, function pointers and trait objects); '
            'allocation and panics are not counted as effects; library code without MIR is classified by its path.')

    def run(self, r):
        cov = dict(functions=set(), bodies=0, sites=0, evaluations=0, definitions=[], undecided=[])
        names = list(suite.SUITE)
        for h in (True, False):
            path, good, bad = behave.compile_all(names, h, 'eff%d' % h)
            if path is None:
                behave.raise_if_broken(h)
                raise CannotAnalyse('no definition compiles: %s' % next(iter(bad.values())))
            cov['definitions_compiled' + ('' if h else '_without_help')] = len(good)
            scan(r, path, cov, h)
        pn = 'basic required types2 subreq' if r.tier == 'quick' else 'basic required types2 subreq docs sub multi pos defaults exclusive flat global'
        k = props.Beh(pn, lambda c: c.startswith('exit:') or c in ('unread', 'effect:args', 'effect:print', 'effect:exit') or c.split(':')[0] in ('accept', 'reject', 'text', 'help'), ('violation',))
        sub = behave.check(r, k, entry='parse_')
        cov['parse'] = r.coverage
        cov['functions'] = sorted(cov['functions'])
        cov['evaluations'] = cov['sites']
        cov['samples'] = cov['functions'][:4] + r.coverage.get('samples', [])[:2]
        cov['undecided'] = r.coverage.get('undecided', [])
        cov['rule'] = [rx.pattern for rx, _ in EFFECTS]
        cov['explanation'] = '%d call sites and static references in %d bodies reachable from parsing, error display and help; Parser::parse: %s' % (cov['sites'], cov['bodies'], r.coverage['explanation'])
        r.coverage = cov
