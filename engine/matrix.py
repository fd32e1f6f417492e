"""Every `arg(..)` option on every kind of argument: which combinations are accepted, and a
definition for each accepted one."""
import itertools
from cli import *
from suite import SUITE, MODE, CB

VB = ('vec![env_const_a(), env_const_b()]', ('X', 'vec_ab', ()))
KINDS = ('flag', 'val', 'opt', 'oo', 'vec', 'optvec')
# option -> what it adds to the argument under test
ATTRS = dict(
    alias=dict(aliases=['al']), aliases=dict(aliases=['al', 'als']), alias2=dict(aliases=['al', 'als'], style=1), short=dict(short='s'), short_alias=dict(short_aliases=['y']), short_aliases=dict(short_aliases=['y', 'z'], style=1),
    require_equals=dict(req_eq=True), allow_hyphen_values=dict(hyphen='any'), allow_negative_numbers=dict(hyphen='num'),
    value_delimiter=dict(delim=':'), use_value_delimiter=dict(delim=',', style=1), ignore_case=dict(lower=True, ty=MODE),
    default_value=dict(default='7', ty=U32), default_value_t=dict(default_t=CB), default_value_t_inherit=dict(default_t=(None, ('X', 'env_const_a', ()))),
    required=dict(required=True), exclusive=dict(exclusive=True), requires=dict(requires=['o']), conflicts_with=dict(conflicts=['o']), conflicts_with_all=dict(conflicts=['o', 'p'], style=1),
    trailing_var_arg=dict(trailing=True), last=dict(last=True), hide=dict(hide=True, doc='Docs of it.'), value_name=dict(value_name='Some Thing'), value_enum=dict(value_enum=True, ty=MODE),
    help=dict(doc='Help of it.', help_attr=True), long_help=dict(doc='Long help of it.', help_attr='long_help'))
ATTRS['global'] = dict(glob=True)


def bad(named, kind, *attrs):
    """Why the macros must reject this combination, or None."""
    k = {}
    for a in attrs:
        for x, v in ATTRS[a].items():
            k[x] = v
    if 'short' in attrs:
        named = True
    takes = kind in ('val', 'opt', 'vec', 'optvec')
    multi = kind in ('vec', 'optvec')
    if named:
        if k.get('trailing') or k.get('last'):
            return 'only for positional arguments'
    else:
        if kind == 'flag':
            return 'a flag cannot be positional'
        if k.get('req_eq') or k.get('glob') or k.get('lower') or k.get('aliases') or k.get('short_aliases') or k.get('hyphen'):
            return 'only for named arguments'
    if kind == 'oo' and not (k.get('req_eq') or named):     # named ones get require_equals below
        return 'Option<Option<_>> needs require_equals'
    if kind == 'flag' and (k.get('req_eq') or k.get('value_name') or k.get('lower') or k.get('value_enum')):
        return 'a flag takes no value'
    if k.get('hyphen') and (not takes or k.get('req_eq')):
        return 'needs a value in the next argument'
    if k.get('delim') and not multi:
        return 'needs a Vec-like type'
    if (k.get('trailing') or k.get('last')) and not multi:
        return 'needs a Vec-like type'
    d = [a for a in attrs if a.startswith('default_value')]
    if len(d) > 1 or d and k.get('required'):
        return 'contradictory settings'
    return None


def typed_out(named, kind, *attrs):
    """Combinations which ordinary type checking of the expansion rejects: not judged here."""
    if 'default_value_t' in attrs and kind in ('oo', 'vec', 'optvec'):
        return True
    if 'default_value_t_inherit' in attrs and kind in ('oo', 'vec', 'optvec'):
        return True
    return False


def clash(attrs):
    keys = [x for a in attrs for x in ATTRS[a] if x not in ('style', 'ty')]
    tys = {ATTRS[a]['ty'].rust for a in attrs if 'ty' in ATTRS[a]} | {'V' for a in attrs if a in ('default_value_t', 'default_value_t_inherit')}
    return len(keys) != len(set(keys)) or len(tys) > 1


def make(named, kind, *attrs, both=False):
    kw = {}
    for a in attrs:
        kw.update(ATTRS[a])
    if named:
        kw['long'] = True
        if both:
            kw['short'] = 's'
        if kind == 'oo':
            kw['req_eq'] = True
    if kind == 'flag':
        if 'default' in kw:
            kw['default'] = 'true'
        if 'default_t' in kw:
            inh = kw['default_t'][0] is None
            kw.update(default_t=(None, False) if inh else ('true', True), default_shown='false' if inh else 'true')
    if kind in ('vec', 'optvec') and 'default_value_t' in attrs:
        kw['default_t'] = VB
    items = [Arg('x', kind, **kw), Arg('o', 'flag', short=True)]
    if 'conflicts_with_all' in attrs:
        items.append(Arg('p', 'flag', short=True))
    if 'global' in attrs:
        items.append(Sub('cmd', Enum('Cmd', ('Run', 'unit', None)), optional=True))
    return Struct('Main', *items)


def name(named, kind, *attrs):
    return 'mx_%s_%s_%s' % ('n' if named else 'p', kind, '_'.join(attrs) or 'plain')


def singles():
    for named in (True, False):
        for kind in KINDS:
            for a in [()] + [(a,) for a in ATTRS]:
                if not (a == ('short',) and not named):
                    yield (named, kind) + a


def pairs():
    for named in (True, False):
        for kind in KINDS:
            for a, b in itertools.combinations([x for x in ATTRS if x not in ('aliases', 'alias2', 'short_aliases', 'long_help', 'use_value_delimiter', 'conflicts_with_all')], 2):
                if not clash((a, b)) and not (not named and 'short' in (a, b)):
                    yield (named, kind, a, b)


# options which can influence each other's effect: all their pairs are in the quick tier
CORE = set('require_equals allow_hyphen_values allow_negative_numbers value_delimiter ignore_case default_value default_value_t required exclusive trailing_var_arg last value_enum global'.split())


def core_pairs():
    return (c for c in pairs() if c[2] in CORE and c[3] in CORE)


def register_both(combos):
    """With a short name besides the long one."""
    out = []
    for c in combos:
        if c[0] and 'short' not in c and not bad(*c) and not typed_out(*c):
            n = name(*c).replace('mx_', 'mxb_')
            SUITE[n] = make(*c, both=True)
            out.append(n)
    return out


def register(combos):
    out = []
    for c in combos:
        if not bad(*c) and not typed_out(*c):
            n = name(*c)
            SUITE[n] = make(*c)
            out.append(n)
    return out


class Matrix:
    """C21: an option is either refused on a kind of argument, or it has the effect the reference gives it."""
    technique = 'abstract interpretation of the MIR of one definition per option and kind of argument, simulated against a reference automaton; compile-fail witnesses for the refused combinations'
    note = ('Every option on every kind of argument (and the pairs of options which can influence each other; all pairs in the thorough tier) either does not compile or is simulated, for all argument lists, '
            'against a reference automaton in which the option has its documented effect. Trusted: rustc front end, library models, reference automaton.')

    def run(self, r):
        import behave, props, witness
        lib = witness.Lib()
        cs = list(singles()) + list(pairs() if r.tier == 'thorough' else core_pairs())
        cs = [c for c in cs if not typed_out(*c)]
        refuse = [c for c in cs if bad(*c)]
        res = lib.many([(name(*c), rust_crate([('m', make(*c))])) for c in refuse])
        for c in refuse:
            if res[name(*c)][0] == 0:
                r.violation('accepted/' + name(*c), 'accepted: %s on %s argument of kind %s compiles, although the option cannot have any effect there (%s)' % (' and '.join(c[2:]), 'a named' if c[0] else 'a positional', c[1], bad(*c)), definition=make(*c).decl_rust(True))
        names = register(singles()) + register(c for c in core_pairs() if not c[0]) + register_both(core_pairs())
        more = names
        if r.tier == 'thorough':
            more = list(dict.fromkeys(names + register(pairs()) + register_both(singles())))
        k = props.Beh(' '.join(names), lambda c: True, ('violation',), more=' '.join(more))
        k.more_help = (True,)
        behave.check(r, k)
        r.coverage['refused_combinations'] = len(refuse)
        r.coverage['evaluations'] += len(refuse)
        r.coverage['explanation'] += '; %d combinations refused at compile time' % len(refuse)
