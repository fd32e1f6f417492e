"""Summaries of the library routines the analysed crate builds on (core/alloc/std and the
os_str_bytes extension trait), phrased over the abstract domain, plus the environment: the
argument iterator and the field types' own conversions, which are inputs of the analysis.

Everything of palc itself, the code generated by its derive macros and std's combinators is
analysed from its MIR; only leaf routines (string searching, vectors, formatting machinery,
allocation) are summarised here.
"""
import json, re, unicodedata
from dom import *
from absint import *

STD = ('core', 'alloc', 'std', 'os_str_bytes')


def q(*b):
    return tuple(x for x in b if x != b'')


# `<T as Trait>::method`, as functions called through pointers are named
IMPL = re.compile(r'^<.* as ([\w:]+)>::')


class Models:
    def __init__(self, prog):
        self.prog = prog
        self.cache = {}
        self.ordtid = None
        for i, t in enumerate(prog.types):
            if t['n'] == 'std::cmp::Ordering':
                self.ordtid = i

    # ----- dispatch -----
    def find(self, callee):
        c = callee.get('crate')
        d = callee['def']
        if callee['k'] == 'intrinsic' or d.startswith('std::intrinsics::') or d.startswith('core::intrinsics::'):
            return self.intrinsic
        x = EXACT.get(d)
        if x is not None:
            return x
        if callee.get('idef') in EXACT and callee['idef'] != d:
            return EXACT[callee['idef']]
        if c is not None and c not in STD:
            if d.rsplit('::', 1)[-1].startswith('env_'):
                return env_parse
            if d in ('std::convert::Into::into',):
                return None
            return None
        return self.generic

    def generic(self, ip, st, callee, args, dty):
        """Value-directed dispatch for library methods."""
        d = callee['def']
        meth = d.rsplit('::', 1)[-1]
        if meth == 'precondition_check' or meth == 'assume' or meth == 'assert_unchecked' or meth == 'cold_path':
            return UNIT
        h = ANY.get(meth)
        if h is not None:
            r = h(ip, st, callee, args, dty)
            if r is not FALL:
                return r
        if args:
            kind = recv_kind(ip, st, args[0])
            h = RECV.get((kind, meth))
            if h is not None:
                r = h(ip, st, callee, args, dty)
                if r is not FALL:
                    return r
            h = TRAIT.get(d) or TRAIT.get(IMPL.sub(r'\1::', d))
            if h is not None:
                r = h(ip, st, callee, args, dty)
                if r is not FALL:
                    return r
        return FALL

    def intrinsic(self, ip, st, callee, args, dty):
        n = callee['def'].rsplit('::', 1)[-1]
        if n in ('discriminant_value',):
            v = peel(ip, st, args[0])
            if v[0] == 'A':
                if v[1] is not None and self.prog.types[v[1]]['k'] == 'adt':
                    return self.prog.types[v[1]]['v'][v[2]]['d']
                return v[2]
            if v[0] == 'X':
                return self.discr(ip, st, v)
        if n in ('abort', 'unreachable'):
            raise Panic('call of intrinsics::%s' % n)
        if n in ('integer_max', 'integer_min') or n in ('max', 'min'):
            a, b = args
            le = st.le(a, b)
            return (b if le else a) if 'max' in n else (a if le else b)
        if n == 'raw_eq':
            return veq(ip, st, peel(ip, st, args[0]), peel(ip, st, args[1]))
        if n in ('cold_path', 'assume', 'assert_inhabited', 'assert_zero_valid', 'likely', 'unlikely', 'black_box'):
            return args[0] if n in ('likely', 'unlikely', 'black_box') else UNIT
        if n in ('saturating_sub', 'saturating_add', 'wrapping_add', 'wrapping_sub', 'unchecked_add', 'unchecked_sub', 'unchecked_mul', 'exact_div'):
            return num_method(n)(ip, st, callee, args, dty)
        if n == 'three_way_compare':
            return self.ordering(-1 if ip.compare(st, 'Lt', args[0], args[1]) else (0 if ip.compare(st, 'Eq', args[0], args[1]) else 1))
        if n == 'compare_bytes':
            raise Unsupported('intrinsic compare_bytes')
        if n == 'transmute' or n == 'transmute_unchecked':
            return ip.transmute(st, args[0], dty)
        if n == 'read_via_copy':
            return ip.read(st, *rloc(args[0]))
        if n == 'write_via_move':
            ip.write(st, *rloc(args[0]), args[1])
            return UNIT
        if n == 'size_of' or n == 'needs_drop' or n == 'size_of_val':
            return 8 if n != 'needs_drop' else False
        if n == 'ub_checks' or n == 'contract_checks':
            return False
        raise Unsupported('intrinsic %s' % callee['def'])

    def ordering(self, v):
        return ('A', self.ordtid, v + 1, ())

    def discr(self, ip, st, v):
        raise Unsupported('discriminant of %s' % (v[1],))

    # ----- environment -----
    def env_call(self, ip, st, deff, args):
        m = deff.rsplit('::', 1)[-1]
        if m == 'next':
            return env_next(ip, st)
        if m == 'size_hint':
            return TUP(0, NONE())
        raise Unsupported('iterator method %s on the argument source' % m)


def env_next(ip, st):
    sp = ip.spec
    if st.ended:
        return NONE()
    if sp is not None:
        sp.at_next(ip, st)
    if st.pend is None:
        raise Fork([[('pend', False)], [('pend', True)]])
    if st.pend is False:
        st.pend = None
        st.ended = True
        st.hist = st.hist + (None,)
        if sp is not None:
            st.spec = sp.end(st, st.spec)
        return NONE()
    st.pend = None
    o = st.fresh(Con())
    tok = (('o', o),)
    st.hist = st.hist + (tok,)
    if sp is not None:
        st.spec = sp.token(st, st.spec, tok)
    return SOME(('O', tok))


ENV = ('D', ('R', ('env', 0), (), None), 'ENV')


def args_os(ip, st, c, a, t):
    """The process arguments: the input of `Parser::parse`."""
    if ip.spec is None or not ip.spec.process:
        raise Violation('effect:args', 'the process arguments are read')
    return ENV


def env_item(ip, st, c, a, t):
    """Iterator::next of std::env::ArgsOs."""
    x = peel(ip, st, a[0])
    if x == ENV or x == ('X', 'ENVIT'):
        return env_next(ip, st)
    return FALL


def std_print(i):
    def f(ip, st, c, a, t):
        if ip.spec is None or not ip.spec.process:
            raise Violation('effect:print', 'text is written to a standard stream')
        args = a[0] if a[0][0] != 'R' else peel(ip, st, a[0])
        ip.push_native(st, FmtWrite(), (('R', ('env', i), (), None), args, 0))
        return CALLED
    return f


def process_exit(ip, st, c, a, t):
    if ip.spec is None or not ip.spec.process:
        raise Violation('effect:exit', 'the process is ended')
    ip.paths += 1
    ip.spec.on_exit(ip, st, a[0])
    return ENDPATH


def env_parse(ip, st, callee, args, dty):
    """The field type's own conversion: an unknown partial function of the bytes given."""
    name = callee['def'].rsplit('::', 1)[-1]
    if name.startswith('env_const_'):
        return ('X', name, ())
    if name.startswith(('env_text_', 'env_shown_')):
        v = peel(ip, st, args[0])
        if not (isinstance(v, tuple) and v[0] == 'X' and len(v) == 3):
            raise Unsupported('rendering of %r' % (v,))
        return ('S', (('disp', v[1], st.norm(v[2])),))
    segs = strs(ip, st, args[0])
    if segs is None:
        raise Unsupported('conversion of %r' % (args[0],))
    segs = st.norm(segs)
    if not name.startswith('env_parse_'):
        raise Unsupported('environment function %s' % name)
    if conv_ok(st, name, segs):
        return OK(('X', name, segs))
    return ERR(('X', name + '_err', segs))


def conv_ok(st, name, segs):
    segs = st.norm(segs)
    if all(type(s) is bytes for s in segs):
        return True
    return st.atom(name, segs)


# ----- helpers -----
def rloc(v):
    if v[0] == 'R':
        return v[1], v[2]
    if v[0] == 'SM':
        return v[1], v[2]
    if v[0] == 'D':
        return rloc(v[1])
    raise Unsupported('not a pointer: %r' % (v[:1],))


def peel(ip, st, v):
    """Follow references down to the value."""
    n = 0
    while isinstance(v, tuple) and v[0] in ('R', 'D'):
        if v[0] == 'D':
            v = v[1]
            continue
        x = ip.read(st, v[1], v[2])
        if v[3] is not None and isinstance(x, tuple) and x[0] in ('T', 'V'):
            items = x[1] if x[0] == 'T' else x[2]
            if v[3] != (0, len(items)):
                x = ('T', items[v[3][0]:v[3][1]])
        v = x
        n += 1
        if n > 20:
            break
    return v


def strs(ip, st, v):
    """Segments of a string-like value (through references), else None."""
    v = peel(ip, st, v)
    if not isinstance(v, tuple):
        return None
    if v[0] in ('S', 'O'):
        return v[1]
    if v[0] == 'SM':
        return strs(ip, st, ip.read(st, v[1], v[2]))
    if v[0] == 'T' and v[1] and all(isinstance(x, int) and not isinstance(x, bool) and 0 <= x < 256 for x in v[1]):
        return (bytes(v[1]),)
    if v[0] == 'A' and v[1] is not None and ip.prog.types[v[1]].get('adt') == 'std::borrow::Cow' and v[3]:
        return strs(ip, st, v[3][0])
    return None


def items_of(ip, st, v):
    x = peel(ip, st, v)
    if isinstance(x, tuple) and x[0] == 'T':
        return x[1]
    if isinstance(x, tuple) and x[0] == 'V':
        if x[1] is not None:
            raise Unsupported('elements of an accumulated vector')
        return x[2]
    return None


def recv_kind(ip, st, v):
    x = v
    if isinstance(x, tuple) and x[0] in ('R', 'D'):
        try:
            x = peel(ip, st, v)
        except Unsupported:
            return None
    if isinstance(x, bool):
        return 'bool'
    if isinstance(x, int):
        return 'int'
    if not isinstance(x, tuple):
        return None
    k = x[0]
    if k in ('S', 'O', 'SM'):
        return 'str'
    if k == 'T':
        return 'seq'
    if k == 'V':
        return 'seq'
    if k == 'L':
        return 'int'
    if k == 'ch':
        return 'ch'
    if k == 'by':
        return 'by'
    if k == 'I':
        return 'iter'
    if k == 'X':
        return 'x'
    if k == 'A' and is_fmt(ip, x):
        return 'fmt'
    if k == 'A' and x[1] is not None and isinstance(x[1], int) and ip.prog.types[x[1]].get('adt') == 'std::borrow::Cow' and False:
        return 'str'
    return None


def veq(ip, st, a, b):
    a, b = peel(ip, st, a), peel(ip, st, b)
    sa, sb = strs(ip, st, a), strs(ip, st, b)
    if sa is not None and sb is not None:
        return st.eq(sa, sb)
    if sa is not None and isinstance(b, tuple) and b[0] == 'T' and not b[1]:
        return st.is_empty(sa)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if a[0] == 'T' and b[0] == 'T':
            return len(a[1]) == len(b[1]) and all(veq(ip, st, x, y) for x, y in zip(a[1], b[1]))
        if a[0] == 'A' and b[0] == 'A':
            if a[2] != b[2] or len(a[3]) != len(b[3]):
                return False
            return all(veq(ip, st, x, y) for x, y in zip(a[3], b[3]))
        if a[0] == 'X' and b[0] == 'X':
            if a == b:
                return True
            raise Unsupported('equality of user values')
    return ip.compare(st, 'Eq', a, b)


def tyname(ip, dty):
    return ip.prog.types[dty] if dty is not None else None


def conv_to(ip, st, dty, segs, src=None):
    """A string-like result in the representation its type calls for."""
    t = tyname(ip, dty)
    if t is None:
        return ('S', segs)
    if t['k'] in ('ref', 'ptr'):
        if t.get('mut') and src is not None:
            v = src
            while isinstance(v, tuple) and v[0] == 'R':
                x = ip.read(st, v[1], v[2])
                if isinstance(x, tuple) and x[0] == 'O':
                    return ('SM', v[1], v[2])
                v = x
            if isinstance(v, tuple) and v[0] == 'SM':
                return v
        return ('S', segs)
    if t['k'] == 'adt':
        n = t['adt']
        if n.endswith('::Cow'):
            s = peel(ip, st, src) if src is not None else None
            if s is not None and s[0] == 'O' and src[0] == 'O':
                return ('A', dty, 1, (('O', segs),))
            return ('A', dty, 0, (('S', segs),))
        if n.endswith('::Box') and t.get('args') and ip.prog.types[t['args'][0]]['k'] == 'dyn':
            return None
        return ('O', segs)
    return None


def to_str(ip, st, callee, args, dty):
    segs = strs(ip, st, args[0])
    if segs is None:
        return FALL
    v = conv_to(ip, st, dty, st.norm(segs), args[0])
    if v is None:
        return FALL
    return v


def pat(ip, st, v):
    """A search pattern as literal bytes, or None."""
    if isinstance(v, tuple) and v[0] == 'ch':
        s = st.norm(v[1])
    else:
        s = strs(ip, st, v)
        if s is None:
            p = peel(ip, st, v)
            if isinstance(p, tuple) and p[0] == 'ch':
                s = st.norm(p[1])
            elif isinstance(p, int) and not isinstance(p, bool):
                return bytes([p])
            else:
                raise Unsupported('pattern %r' % (p,))
        s = st.norm(s)
    if len(s) == 0:
        return b''
    if len(s) == 1 and type(s[0]) is bytes:
        return s[0]
    raise Unsupported('unknown pattern')


def view(ip, st, segs, args, like=None):
    return ('S', st.norm(segs))


def mm(f):
    return lambda ip, st, c, a, t: f(ip, st, a, t)


# ----- string receivers -----
def s_len(ip, st, a, t):
    return st.slen(strs(ip, st, a[0]))


def s_is_empty(ip, st, a, t):
    return st.is_empty(strs(ip, st, a[0]))


def s_starts_with(ip, st, a, t):
    try:
        p = pat(ip, st, a[1])
    except Unsupported:
        cl = char_class(ip, st, a[1])
        s = strs(ip, st, a[0])
        if cl is None:
            p = strs(ip, st, a[1])
            if p is None:
                raise
            return st.after_prefix(s, p) is not None
        if st.is_empty(s):
            return False
        return ip.first_in(st, s, cl)
    return st.starts_with(strs(ip, st, a[0]), p)


def s_strip_prefix(ip, st, a, t):
    try:
        pat(ip, st, a[1])
    except Unsupported:
        cl = char_class(ip, st, a[1])
        s = strs(ip, st, a[0])
        if cl is None:
            p = strs(ip, st, a[1])
            if p is None:
                raise
            r = st.after_prefix(s, p)
            return NONE() if r is None else SOME(('S', r))
        if not cl <= frozenset(range(128)):
            raise
        if st.is_empty(s) or not ip.first_in(st, s, cl):
            return NONE()
        return SOME(('S', st.norm(st.drop1(st.norm(s)))))
    r = st.strip_prefix(strs(ip, st, a[0]), pat(ip, st, a[1]))
    return NONE() if r is None else SOME(('S', r))


def ends_lit(st, segs, lit):
    segs = st.norm(segs)
    for s in segs:
        if type(s) is not bytes:
            break
    else:
        return b''.join(segs).endswith(lit)
    last = segs[-1] if segs else b''
    if type(last) is bytes and len(last) >= len(lit):
        return last.endswith(lit)
    if type(last) is not bytes and last[0] == 'o' and len(lit) == 1:
        c = st.cons[last[1]]
        if c.cls is not None and lit[0] not in c.cls and c.mn > 0:
            return False
        r = st.rfind_split((last,), lit[0])
        if r is None:
            if st.cons[last[1]].mn == 0:
                st._fork_empty(last[1])
            return False
        return st.is_empty(r[1])
    if not lit:
        return True
    if type(last) is bytes and last:
        return lit.endswith(last) and ends_lit(st, segs[:-1], lit[:-len(last)])
    if type(last) is not bytes and last[0] == 'o':
        if len(segs) > 1 and st.cons[last[1]].mn < len(lit):
            if st.cons[last[1]].mn == 0:
                st._fork_empty(last[1])
            raise Unsupported('ends_with across parts')
        return st.ends_one(last, lit)
    raise Unsupported('ends_with')


def s_ends_with(ip, st, a, t):
    return ends_lit(st, strs(ip, st, a[0]), pat(ip, st, a[1]))


def s_strip_suffix(ip, st, a, t):
    p = pat(ip, st, a[1])
    s = strs(ip, st, a[0])
    if not ends_lit(st, s, p):
        return NONE()
    s = st.norm(s)
    r = s[:-1] + q(s[-1][:len(s[-1]) - len(p)])
    return SOME(('S', r))


def find_lit(st, segs, lit):
    """(before, after) of the first occurrence of a literal."""
    if len(lit) == 1 and lit[0] < 128:
        return st.find_split(segs, lit[0])
    segs = st.norm(segs)
    if all(type(s) is bytes for s in segs):
        s = b''.join(segs)
        i = s.find(lit)
        return None if i < 0 else (q(s[:i]), q(s[i + len(lit):]))
    if not lit:
        return (), segs
    try:
        one = len(lit.decode()) == 1
    except UnicodeDecodeError:
        one = False
    if one:
        return st.find_char(segs, lit)
    raise Unsupported('search for %r' % lit)


def s_split_once(ip, st, a, t):
    r = find_lit(st, strs(ip, st, a[0]), pat(ip, st, a[1]))
    return NONE() if r is None else SOME(TUP(('S', st.norm(r[0])), ('S', st.norm(r[1]))))


def s_rsplit_once(ip, st, a, t):
    p = pat(ip, st, a[1])
    if len(p) != 1:
        raise Unsupported('rsplit_once')
    r = st.rfind_split(strs(ip, st, a[0]), p[0])
    return NONE() if r is None else SOME(TUP(('S', st.norm(r[0])), ('S', st.norm(r[1]))))


def s_find(ip, st, a, t):
    r = find_lit(st, strs(ip, st, a[0]), pat(ip, st, a[1]))
    return NONE() if r is None else SOME(st.slen(r[0]))


def s_rfind(ip, st, a, t):
    r = st.rfind_split(strs(ip, st, a[0]), pat(ip, st, a[1])[0])
    return NONE() if r is None else SOME(st.slen(r[0]))


def s_contains(ip, st, a, t):
    try:
        p = pat(ip, st, a[1])
    except Unsupported:
        cl = char_class(ip, st, a[1])
        if cl is None:
            raise
        return not st.all_bytes(strs(ip, st, a[0]), frozenset(range(256)) - cl)
    return find_lit(st, strs(ip, st, a[0]), p) is not None


def s_split(ip, st, a, t):
    p = pat(ip, st, a[1])
    return ('I', 'split', strs(ip, st, a[0]), p, True)


def s_split_terminator(ip, st, a, t):
    p = pat(ip, st, a[1])
    return ('I', 'splitt', strs(ip, st, a[0]), p, True)


def s_lines(ip, st, a, t):
    return ('I', 'splitt', strs(ip, st, a[0]), b'\n', True)


def s_chars(ip, st, a, t):
    return ('I', 'chars', strs(ip, st, a[0]))


def s_char_indices(ip, st, a, t):
    return ('I', 'chidx', strs(ip, st, a[0]), 0)


def s_bytes(ip, st, a, t):
    return ('I', 'bytesv', strs(ip, st, a[0]))


def s_iter(ip, st, a, t):
    return ('I', 'bytes', strs(ip, st, a[0]))


def s_utf8_chunks(ip, st, a, t):
    return ('I', 'u8c', strs(ip, st, a[0]))


def s_lower_inplace(ip, st, a, t):
    v = a[0]
    if v[0] == 'R':
        v = ('SM',) + rloc_owned(ip, st, v)
    if v[0] != 'SM':
        raise Unsupported('make_ascii_lowercase of a view')
    x = ip.read(st, v[1], v[2])
    ip.write(st, v[1], v[2], (x[0], st.lower(st.norm(x[1]))))
    return UNIT


def s_to_lower(ip, st, a, t):
    return ('O', st.lower(st.norm(strs(ip, st, a[0]))))


def s_eq_ignore_case(ip, st, a, t):
    x, y = st.norm(strs(ip, st, a[0])), st.norm(strs(ip, st, a[1]))
    return st.eq(st.lower(x), st.lower(y))


def s_is_ascii(ip, st, a, t):
    return st.all_bytes(strs(ip, st, a[0]), frozenset(range(128)))


def s_to_str(ip, st, a, t):
    s = strs(ip, st, a[0])
    return SOME(('S', st.norm(s))) if st.utf8(s) else NONE()


def s_from_utf8(ip, st, c, a, t):
    s = strs(ip, st, a[0])
    if s is None:
        return FALL
    s = st.norm(s)
    owned = a[0][0] == 'O'
    if st.utf8(s):
        return OK(('O' if owned else 'S', s))
    return ERR(('X', 'utf8err', s))


def s_into_string(ip, st, c, a, t):
    s = strs(ip, st, a[0])
    if s is None:
        return FALL
    s = st.norm(s)
    if st.utf8(s):
        return OK(('O', s))
    return ERR(('O', s))


def s_lossy(ip, st, c, a, t):
    s = strs(ip, st, a[0])
    if s is None:
        return FALL
    s = st.norm(s)
    if all(type(x) is bytes and is_utf8(x) for x in s):
        r = s
    else:
        r = (('lossy', s),)
    if t is not None and ip.prog.types[t].get('adt') == 'std::borrow::Cow':
        return ('A', t, 0, (('S', r),))
    return ('A', None, 0, (('S', r),))


def s_file_name(ip, st, a, t):
    s = st.norm(strs(ip, st, a[0]))
    if all(type(x) is bytes for x in s):
        import posixpath
        b = b''.join(s).rstrip(b'/')
        b = b.rsplit(b'/', 1)[-1]
        return SOME(('S', q(b))) if b and b not in (b'..', b'.') else NONE()
    if st.atom('hasfname', s):
        return SOME(('S', (('fname', s),)))
    return NONE()


def s_split_at(ip, st, a, t):
    r = st.split_at(strs(ip, st, a[0]), a[1])
    if r is None:
        raise Panic('split_at out of bounds')
    return TUP(('S', r[0]), ('S', r[1]))


def s_first(ip, st, a, t):
    r = st.pop_byte(strs(ip, st, a[0]))
    return NONE() if r is None else SOME(byref(ip, st, r[0]))


def s_last(ip, st, a, t):
    r = s_split_last(ip, st, a, t)
    return r if r[2] == 0 else SOME(r[3][0][3][0])


def s_split_first(ip, st, a, t):
    r = st.pop_byte(strs(ip, st, a[0]))
    return NONE() if r is None else SOME(TUP(byref(ip, st, r[0]), ('S', st.norm(r[1]))))


def byref(ip, st, segs):
    return ('R', st.alloc(ip.byte(st, segs)), (), None)


WS = frozenset(b' \t\n\r\x0b\x0c')


def trim_cls(ip, st, s, cls, left, right, n=3):
    """Trim a class of bytes. On unknown text only a few repetitions at each end (and, at the
    back, only some bytes of the class) are followed: the definition then counts as undecided."""
    s = st.norm(s)
    if left:
        for _ in range(n):
            if st.is_empty(s):
                return ()
            s = st.norm(s)
            if type(s[0]) is bytes:
                b = bytes(s[0]).lstrip(bytes(cls))
                if b == s[0]:
                    break
                s = q(b) + s[1:]
                continue
            if not ip.first_in(st, s, cls):
                break
            ip.approx('trim')
            s = st.norm(st.drop1(s))
    if right:
        while s and type(s[-1]) is bytes:
            b = s[-1].rstrip(bytes(cls))
            s = s[:-1] + q(b)
            if b:
                return s
        if s:
            ip.approx('trim')
            for c in [x for x in (32, 10, 48, 45) if x in cls] or sorted(cls)[:1]:
                if ends_lit(st, s, bytes([c])):
                    s = st.norm(s)
                    s = s[:-1] + q(s[-1][:-1])
    return st.norm(s)


def s_trim(which):
    def f(ip, st, a, t):
        left, right = 'end' not in which, 'start' not in which
        s = st.norm(strs(ip, st, a[0]))
        if not s:
            return ('S', s)
        return ('S', trim_cls(ip, st, s, WS, left, right))
    return f


def s_trim_pat(left, right):
    def f(ip, st, a, t):
        s = st.norm(strs(ip, st, a[0]))
        try:
            p = pat(ip, st, a[1])
        except Unsupported:
            cl = char_class(ip, st, a[1])
            if cl is None:
                raise
            return ('S', trim_cls(ip, st, s, cl, left, right))
        if len(p) == 1:
            return ('S', trim_cls(ip, st, s, frozenset(p), left, right, 30))
        if left:
            for _ in range(30):
                r = st.strip_prefix(s, p)
                if r is None:
                    break
                s = r
        if right:
            for _ in range(30):
                if not ends_lit(st, s, p):
                    break
                s = st.norm(s)
                s = s[:-1] + q(s[-1][:len(s[-1]) - len(p)])
        return ('S', st.norm(s))
    return f


def s_view(ip, st, a, t):
    return ('S', st.norm(strs(ip, st, a[0])))


def s_splitn(ip, st, c, a, t):
    return ('I', 'splitn', strs(ip, st, a[0]), pat(ip, st, a[2]), a[1])


def s_split_last(ip, st, a, t):
    s = st.norm(strs(ip, st, a[0]))
    if st.is_empty(s):
        return NONE()
    s = st.norm(s)
    if type(s[-1]) is bytes:
        return SOME(TUP(byref(ip, st, (s[-1][-1:],)), ('S', s[:-1] + q(s[-1][:-1]))))
    raise Unsupported('last byte of unknown text')


def s_upper(ip, st, a, t):
    s = st.norm(strs(ip, st, a[0]))
    if all(type(x) is bytes for x in s):
        return ('O', q(b''.join(s).upper()))
    raise Unsupported('uppercase of unknown text')


def s_ulower(ip, st, a, t):
    """`str::to_lowercase`: what becomes of text with characters outside ASCII is not known (the Kelvin sign becomes `k`)."""
    out = ()
    for x in st.norm(strs(ip, st, a[0])):
        if type(x) is bytes:
            out += q(x.decode().lower().encode())
        elif st.all_bytes((x,), frozenset(range(128))):
            out += st.lower((x,))
        else:
            for k in st.atoms:
                if k[0] == 'ulower' and k[1] == (x,):
                    out += k[2]
                    break
            else:
                n = st.nopq
                raise Fork([[('new', n, Con(mn=1, utf8=True)), ('atom', ('ulower', (x,), (('o', n),)), True)]])
    return ('O', st.norm(out))


def unsup(m):
    raise Unsupported(m)


def s_replace(ip, st, a, t):
    s = st.norm(strs(ip, st, a[0]))
    p = pat(ip, st, a[1])
    r = pat(ip, st, a[2])
    if all(type(x) is bytes for x in s):
        return ('O', q(b''.join(s).replace(p, r)))
    raise Unsupported('replace in unknown text')


def s_is_char_boundary(ip, st, a, t):
    r = st.split_at(strs(ip, st, a[0]), a[1])
    return True if r is not None else unsup('char boundary')


# ranges: index/get on strings and sequences
def rng_bounds(ip, st, r, ln):
    """(lo, hi) of a range value; types identify which."""
    if isinstance(r, tuple) and r[0] == 'A':
        t = ip.prog.types[r[1]]['adt'] if r[1] is not None else None
        n = t.rsplit('::', 1)[-1] if t else None
        f = r[3]
        if n == 'RangeFull':
            return 0, ln
        if n == 'RangeFrom':
            return f[0], ln
        if n == 'RangeTo':
            return 0, f[0]
        if n == 'RangeToInclusive':
            return 0, ladd(f[0], 1)
        if n == 'Range':
            return f[0], f[1]
        if n == 'RangeInclusive':
            return f[0], ladd(f[1], 1)
    if isinstance(r, tuple) and r[0] == 'Z':
        n = ip.prog.types[r[1]]['n']
        if n.endswith('RangeFull'):
            return 0, ln
    return None


def is_range(v):
    return isinstance(v, tuple) and v[0] in ('A', 'Z')


def s_index(panics, wrap):
    def f(ip, st, c, a, t):
        segs = st.norm(strs(ip, st, a[0]))
        r = a[1]
        ln = st.slen(segs)
        if not is_range(r):
            if isinstance(r, int) or isinstance(r, tuple) and r[0] == 'L':
                x = st.split_at(segs, r) if st.le(ladd(r, 1), ln) else None
                if x is None:
                    if panics:
                        raise Panic('index out of bounds')
                    return NONE()
                b = st.pop_byte(x[1])
                v = byref(ip, st, b[0])
                return v if not wrap else SOME(v)
            return FALL
        b = rng_bounds(ip, st, r, ln)
        if b is None:
            return FALL
        lo, hi = b
        ok = st.le(hi, ln) and st.le(lo, hi)
        if not ok:
            if panics:
                raise Panic('string slice out of range')
            return NONE()
        x = st.split_at(segs, hi)
        y = x and st.split_at(x[0], lo)
        if y is None:
            raise Unsupported('slice of %r at %r..%r' % (segs, lo, hi))
        if t is not None and ip.prog.types[t]['k'] == 'ref' and ip.prog.types[t].get('mut') and st.norm(y[1]) == segs:
            v = conv_to(ip, st, t, y[1], a[0])
        else:
            v = ('S', y[1])
        return SOME(v) if wrap else v
    return f


# owned string mutation
def rloc_owned(ip, st, v):
    """Location of the String/OsString behind a reference."""
    while True:
        if v[0] == 'SM':
            return v[1], v[2]
        l = rloc(v)
        x = ip.read(st, *l)
        if isinstance(x, tuple) and x[0] == 'O':
            return l
        if isinstance(x, tuple) and x[0] in ('R', 'SM', 'D'):
            v = x
            continue
        raise Unsupported('not an owned string: %r' % (x[:1] if isinstance(x, tuple) else x,))


def append(ip, st, ref, segs):
    l = rloc_owned(ip, st, ref)
    x = ip.read(st, *l)
    ip.write(st, l[0], l[1], ('O', st.norm(x[1] + tuple(segs))))


def o_push(ip, st, a, t):
    v = a[1]
    if isinstance(v, tuple) and v[0] == 'ch':
        segs = v[1]
    else:
        segs = strs(ip, st, v)
        if segs is None:
            p = peel(ip, st, v)
            if isinstance(p, int):
                segs = (bytes([p]),)
            elif isinstance(p, tuple) and p[0] == 'by':
                segs = p[1]
            else:
                raise Unsupported('push of %r' % (v,))
    append(ip, st, a[0], segs)
    return UNIT


def o_extend(ip, st, a, t):
    segs = strs(ip, st, a[1])
    if segs is None:
        raise Unsupported('extend')
    append(ip, st, a[0], segs)
    return UNIT


def o_insert_str(ip, st, a, t):
    l = rloc_owned(ip, st, a[0])
    x = ip.read(st, *l)
    r = st.split_at(st.norm(x[1]), a[1])
    if r is None:
        raise Unsupported('insert_str')
    seg = a[2][1] if a[2][0] == 'ch' else strs(ip, st, a[2])
    ip.write(st, l[0], l[1], ('O', st.norm(r[0] + tuple(seg) + r[1])))
    return UNIT


def o_truncate(ip, st, a, t):
    l = rloc_owned(ip, st, a[0])
    x = ip.read(st, *l)
    segs = st.norm(x[1])
    if st.le(st.slen(segs), a[1]):
        return UNIT
    r = st.split_at(segs, a[1])
    if r is None:
        raise Unsupported('truncate')
    ip.write(st, l[0], l[1], ('O', r[0]))
    return UNIT


def o_clear(ip, st, a, t):
    l = rloc_owned(ip, st, a[0])
    ip.write(st, l[0], l[1], ('O', ()))
    return UNIT


def o_pop(ip, st, a, t):
    l = rloc_owned(ip, st, a[0])
    x = ip.read(st, *l)
    segs = st.norm(x[1])
    if not segs:
        return NONE()
    if type(segs[-1]) is bytes:
        s = segs[-1].decode()
        ip.write(st, l[0], l[1], ('O', segs[:-1] + q(s[:-1].encode())))
        return SOME(('ch', (s[-1].encode(),)))
    raise Unsupported('pop')


def noop(ip, st, c, a, t):
    return UNIT


# ----- sequences -----
def seq_loc(ip, st, v):
    """(loc, proj, (lo, hi) or None, items, base)"""
    while isinstance(v, tuple) and v[0] in ('R', 'D'):
        if v[0] == 'D':
            v = v[1]
            continue
        x = ip.read(st, v[1], v[2])
        if isinstance(x, tuple) and x[0] in ('T', 'V'):
            return v[1], v[2], v[3], x
        v = x
    if isinstance(v, tuple) and v[0] in ('T', 'V'):
        return st.alloc(v), (), None, v
    raise Unsupported('not a sequence')


def seq_rng(x, rng):
    items = x[1] if x[0] == 'T' else x[2]
    return rng if rng is not None else (0, len(items))


def vlen(base, more):
    """Length of an accumulated vector with `more` further elements."""
    while base is not None and base[0] == 'tail':
        base, more = base[1], more - 1
    if base is not None and base[0] == 'cut':
        return base[2] + more
    if base is not None and base[0] == 'perm':
        return vlen(base[2][1], more + len(base[2][2]))
    return more if base is None else lin(more, {('vlen', base): 1})


def q_remove(ip, st, a, t):
    l, p, rng, x = seq_loc(ip, st, a[0])
    if x[0] != 'V' or not isinstance(a[1], int):
        raise Unsupported('remove')
    n = a[1]
    if x[1] is not None:
        if n or st.le(1, vlen(x[1], 0)):
            if n:
                raise Unsupported('remove from accumulated vector')
            ip.write(st, l, p, ('V', ('tail', x[1]), x[2]))
            return ('X', '?', ('removed', x[1]))
    if n >= len(x[2]):
        raise Panic('removal index out of bounds')
    ip.write(st, l, p, ('V', None, x[2][:n] + x[2][n + 1:]))
    return x[2][n]


def q_permute(what):
    def m(ip, st, a, t):
        """sort, reverse: the elements may already be in that order, or not."""
        l, p, rng, x = seq_loc(ip, st, a[0])
        if x[0] != 'V':
            raise Unsupported(what)
        if x[1] is None and len(x[2]) < 2 or not st.le(2, vlen(x[1], len(x[2]))):
            return UNIT
        if x[1] is None and what == 'reverse':
            ip.write(st, l, p, ('V', None, x[2][::-1]))
        elif not st.atom('inorder', ('raw', what, repr(x))):
            ip.write(st, l, p, ('V', ('perm', what, x), ()))
        return UNIT
    return m


def q_len(ip, st, a, t):
    l, p, rng, x = seq_loc(ip, st, a[0])
    if x[0] == 'V' and x[1] is not None:
        return vlen(x[1], len(x[2]))
    lo, hi = seq_rng(x, rng)
    return hi - lo


def q_is_empty(ip, st, a, t):
    l, p, rng, x = seq_loc(ip, st, a[0])
    if x[0] == 'V' and x[1] is not None:
        return not x[2] and not st.le(1, vlen(x[1], 0))
    lo, hi = seq_rng(x, rng)
    return hi == lo


def elem(l, p, i):
    return ('R', l, p + (i,), None)


def q_get(ip, st, a, t):
    l, p, rng, x = seq_loc(ip, st, a[0])
    if x[0] == 'V' and x[1] is not None:
        raise Unsupported('get on accumulated vector')
    lo, hi = seq_rng(x, rng)
    i = st.insertion(a[1])
    if is_range(i):
        b = rng_bounds(ip, st, i, hi - lo)
        if b is None or not isinstance(b[0], int) or not isinstance(b[1], int):
            raise Unsupported('range get')
        if b[0] <= b[1] <= hi - lo:
            return SOME(('R', l, p, (lo + b[0], lo + b[1])))
        return NONE()
    if isinstance(i, tuple):
        for k in range(lo, hi):
            if st.eqnum(i, k - lo):
                return SOME(elem(l, p, k))
        return NONE()
    return SOME(elem(l, p, lo + i)) if lo + i < hi else NONE()


def q_index(ip, st, a, t):
    r = q_get(ip, st, a, t)
    if r[2] == 0:
        raise Panic('index out of bounds')
    return r[3][0]


def q_last(ip, st, a, t):
    l, p, rng, x = seq_loc(ip, st, a[0])
    if x[0] == 'V' and x[1] is not None and not x[2]:
        raise Unsupported('last of accumulated vector')
    lo, hi = seq_rng(x, rng)
    return SOME(elem(l, p, hi - 1)) if hi > lo else NONE()


def q_first(ip, st, a, t):
    l, p, rng, x = seq_loc(ip, st, a[0])
    if x[0] == 'V' and x[1] is not None:
        raise Unsupported('first of accumulated vector')
    lo, hi = seq_rng(x, rng)
    return SOME(elem(l, p, lo)) if hi > lo else NONE()


def q_split_last(ip, st, a, t):
    l, p, rng, x = seq_loc(ip, st, a[0])
    lo, hi = seq_rng(x, rng)
    return SOME(TUP(elem(l, p, hi - 1), ('R', l, p, (lo, hi - 1)))) if hi > lo else NONE()


def q_split_first(ip, st, a, t):
    l, p, rng, x = seq_loc(ip, st, a[0])
    lo, hi = seq_rng(x, rng)
    return SOME(TUP(elem(l, p, lo), ('R', l, p, (lo + 1, hi)))) if hi > lo else NONE()


def q_iter(ip, st, a, t):
    l, p, rng, x = seq_loc(ip, st, a[0])
    if x[0] == 'V' and x[1] is not None:
        raise Unsupported('iteration over accumulated vector')
    lo, hi = seq_rng(x, rng)
    return ('I', 'slice', ('R', l, p, (lo, hi)))


def q_into_iter(ip, st, c, a, t):
    v = a[0]
    if isinstance(v, tuple) and v[0] == 'I':
        return v
    if isinstance(v, tuple) and v[0] in ('V', 'T'):
        if v[0] == 'V' and v[1] is not None:
            raise Unsupported('iteration over accumulated vector')
        return ('I', 'own', v[1] if v[0] == 'T' else v[2])
    if isinstance(v, tuple) and v[0] == 'R':
        x = ip.read(st, v[1], v[2])
        if isinstance(x, tuple) and x[0] in ('V', 'T'):
            return q_iter(ip, st, a, t)
    if isinstance(v, tuple) and v[0] == 'S':
        return ('I', 'bytes', v[1])
    return FALL


def q_push(ip, st, a, t):
    l, p, rng, x = seq_loc(ip, st, a[0])
    if x[0] != 'V':
        raise Unsupported('push')
    ip.write(st, l, p, ('V', x[1], x[2] + (a[1],)))
    return UNIT


def q_insert(ip, st, a, t):
    l, p, rng, x = seq_loc(ip, st, a[0])
    if x[0] != 'V' or not isinstance(a[1], int) or x[1] is not None:
        raise Unsupported('insert')
    ip.write(st, l, p, ('V', None, x[2][:a[1]] + (a[2],) + x[2][a[1]:]))
    return UNIT


def q_pop(ip, st, a, t):
    l, p, rng, x = seq_loc(ip, st, a[0])
    if x[0] != 'V' or x[1] is not None and not x[2]:
        raise Unsupported('pop')
    if not x[2]:
        return NONE()
    ip.write(st, l, p, ('V', x[1], x[2][:-1]))
    return SOME(x[2][-1])


def q_truncate(ip, st, a, t):
    l, p, rng, x = seq_loc(ip, st, a[0])
    if x[0] == 'V' and x[1] is None and isinstance(a[1], int):
        ip.write(st, l, p, ('V', None, x[2][:a[1]]))
        return UNIT
    if x[0] == 'V' and isinstance(a[1], int):
        n = a[1]
        for k in range(len(x[2]), 0, -1):       # k of the known elements remain
            if st.le(vlen(x[1], k), n):
                ip.write(st, l, p, ('V', x[1], x[2][:k]))
                return UNIT
        ip.write(st, l, p, ('V', x[1] if st.le(vlen(x[1], 0), n) else ('cut', x[1], n), ()))
        return UNIT
    raise Unsupported('truncate')


def q_clear(ip, st, a, t):
    l, p, rng, x = seq_loc(ip, st, a[0])
    ip.write(st, l, p, ('V', None, ()))
    return UNIT


def q_clone(ip, st, a, t):
    x = peel(ip, st, a[0])
    if x[0] in ('V', 'T'):
        return x
    return FALL


def q_contains(ip, st, a, t):
    for x in items_of(ip, st, a[0]):
        if veq(ip, st, x, a[1]):
            return True
    return False


def q_concat(ip, st, a, t):
    its = items_of(ip, st, a[0])
    out = ()
    for x in its:
        s = strs(ip, st, x)
        if s is None:
            raise Unsupported('concat')
        out += s
    return ('O', st.norm(out))


def q_join(ip, st, a, t):
    its = items_of(ip, st, a[0])
    sep = strs(ip, st, a[1])
    out = ()
    for i, x in enumerate(its):
        s = strs(ip, st, x)
        if s is None:
            raise Unsupported('join')
        if i:
            out += sep
        out += s
    return ('O', st.norm(out))


# binary searches
def closure_body(ip, fv):
    """(key, by_ref) of a callable value."""
    prog = ip.prog
    if fv[0] == 'Z':
        t = prog.types[fv[1]]
        c = t.get('callee')
        if c and c.get('key'):
            return c['key'], None, c
        if t['k'] == 'closure':
            once = t['once']
        else:
            raise Unsupported('callable %r' % (fv,))
    elif fv[0] == 'P':
        if fv[1] == 'callee':
            c = json.loads(fv[2])
            return c['key'], None, c
        return fv[1], None, None
    elif fv[0] == 'A' and isinstance(fv[1], int) and prog.types[fv[1]].get('once'):
        once = prog.types[fv[1]]['once']
    else:
        raise Unsupported('callable %r' % (fv[:2],))
    f = prog.fn(once)
    if f is None:
        raise Unsupported('closure body')
    if f.shim:
        for b in f.blocks:
            k = b['t']['k']
            if k[0] == 'call':
                return k[1]['key'], True, None
        raise Unsupported('closure shim')
    return once, False, None


def call_fn(ip, st, fv, args):
    """Push a call of a callable value; the native frame on top receives the result."""
    fv0 = fv
    ref = None
    while isinstance(fv, tuple) and fv[0] == 'R':
        ref = fv
        fv = ip.read(st, fv[1], fv[2])
    key, byref_, callee = closure_body(ip, fv)
    if byref_ is None:
        if callee is None:
            d, nm, cr = ip.prog.names[key]
            callee = {'k': 'item', 'def': d, 'idef': d, 'inst': nm, 'key': key, 'crate': cr, 'args': []}
        ip.call(st, callee, list(args), None, None)
        return
    f = ip.prog.fn(key)
    if f is None:
        raise Unsupported('closure body missing')
    if byref_:
        if ref is None:
            ref = ('R', st.alloc(fv), (), None)
        ip.push(st, f, [ref] + list(args), None, None)
    else:
        ip.push(st, f, [fv] + list(args), None, None)


def eval_fn(ip, st, fv, args):
    """Evaluate a callable on given values without letting the path split."""
    s = st.copy()
    depth = len(s.stack)

    class Ret(Native):
        name = 'eval'

        def step(self, ip2, st2, fr, ret):
            raise StopIteration
    out = []

    class Catch(Native):
        name = key = 'catch'

        def step(self_, ip2, st2, fr, ret):
            if fr[1] is None:
                fr[1] = 1
                call_fn(ip2, st2, fv, args)
                return None
            out.append(ret)
            return 'caught'
    ip.push_native(s, Catch(), None)
    snap = ip.snap
    try:
        for _ in range(200000):
            r = ip.step(s)
            if r == 'caught':
                return out[0], s
            if r is not None:
                raise Unsupported('closure evaluation')
        raise Unsupported('closure evaluation budget')
    finally:
        ip.snap = snap


def byte_class(ip, st, fv, mk):
    """The set of bytes for which a predicate holds; it must not depend on anything unknown."""
    memo = ip.__dict__.setdefault('_bc', {})
    key = (fv, repr(mk(65))) if fv[0] == 'Z' else None
    if key in memo:
        return memo[key]
    cls = set()
    for b in range(256):
        try:
            r, _ = eval_fn(ip, st, fv, mk(b))
        except Fork:
            raise Unsupported('predicate depends on unknown input')
        if r is True:
            cls.add(b)
        elif r is not False:
            raise Unsupported('predicate result %r' % (r,))
    if key is not None:
        memo[key] = frozenset(cls)
    return frozenset(cls)


class Mixed(Unsupported):
    pass


def char_class(ip, st, fv):
    v = peel(ip, st, fv) if fv[0] == 'R' else fv
    if v[0] in ('T', 'V'):
        its = items_of(ip, st, fv)
        cls = set()
        for x in its:
            if x[0] == 'ch' and type(x[1][0]) is bytes and len(x[1][0]) == 1:
                cls.add(x[1][0][0])
            else:
                return None
        return frozenset(cls)
    try:
        closure_body(ip, v)
    except Unsupported:
        return None
    # Characters outside ASCII all together, as one unknown character; a predicate that tells them apart is no class of bytes.
    s2 = st.copy()
    o = s2.nopq
    s2.apply(('new', o, Con(first=frozenset(range(0xC2, 0xF5)), mn=2, mx=4, utf8=True, chr=True)))
    try:
        hi, _ = eval_fn(ip, s2, fv, (('ch', (('o', o),)),))
    except Fork:
        hi = None
    if hi is not None and hi is not True and hi is not False:
        raise Unsupported('predicate result %r' % (hi,))
    lo = byte_class(ip, st, fv, lambda b: (('ch', (chr(b & 127).encode(),)),))
    lo = frozenset(b for b in lo if b < 128)
    if hi is None:
        raise Mixed(lo)
    return lo | (frozenset(range(128, 256)) if hi else frozenset())


def chars_all(st, segs, lo, key, want):
    """Whether every character (`want`) satisfies a predicate, or none does, when it tells characters outside ASCII apart."""
    lo = lo if want else frozenset(range(128)) - lo
    for s in segs:
        if st.all_bytes((s,), frozenset(range(128))):
            if not st.all_bytes((s,), lo):
                return False
        elif not (st.all_bytes((s,), lo | frozenset(range(128, 256))) and st.atom('chars', (s,), ('raw', (key, want)))):
            return False
    return True


def lits(st, segs):
    segs = st.norm(segs)
    if all(type(s) is bytes for s in segs):
        return b''.join(segs)
    return None


def std_bsearch(keys, k):
    size = len(keys)
    if size == 0:
        return False, 0
    base = 0
    while size > 1:
        half = size // 2
        mid = base + half
        if not keys[mid] > k:
            base = mid
        size -= half
    if keys[base] == k:
        return True, base
    return False, base + (1 if keys[base] < k else 0)


def q_binary_search_by_key(ip, st, a, t):
    l, p, rng, x = seq_loc(ip, st, a[0])
    lo, hi = seq_rng(x, rng)
    keys = []
    for i in range(lo, hi):
        r, s = eval_fn(ip, st, a[2], (elem(l, p, i),))
        ks = strs(ip, s, r)
        kl = lits(st, ks) if ks is not None else None
        if kl is None:
            raise Unsupported('table key %r' % (r,))
        keys.append(kl)
    return bsearch_str(ip, st, keys, strs(ip, st, a[1]))


def q_binary_search(ip, st, a, t):
    its = items_of(ip, st, a[0])
    keys = []
    for x in its:
        s = strs(ip, st, x)
        kl = lits(st, s) if s is not None else None
        if kl is None:
            raise Unsupported('table key')
        keys.append(kl)
    return bsearch_str(ip, st, keys, strs(ip, st, a[1]))


def bsearch_str(ip, st, keys, want):
    if want is None:
        raise Unsupported('search key')
    seen = set()
    for k in keys:
        if k in seen:
            continue
        seen.add(k)
        if st.eq(want, q(k)):
            ok, i = std_bsearch(keys, k)
            return OK(i) if ok else ERR(i)
    return ERR(('X', 'insertion-point', st.norm(want)) + tuple(q(k) for k in keys))


class BSearchBy(Native):
    name = key = 'binary_search_by'

    def step(self, ip, st, fr, ret):
        l, p, lo, hi, fv, size, base, final = fr[1]
        n = hi - lo
        if ret is not None:
            o = ret[2] - 1
            if final:
                if o == 0:
                    return ip.ret(st, OK(base))
                return ip.ret(st, ERR(base + (1 if o < 0 else 0)))
            half = size // 2
            if o <= 0:
                base = base + half
            size -= half
        if n == 0:
            return ip.ret(st, ERR(0))
        if size > 1:
            fr[1] = (l, p, lo, hi, fv, size, base, False)
            call_fn(ip, st, fv, (elem(l, p, lo + base + size // 2),))
        else:
            fr[1] = (l, p, lo, hi, fv, size, base, True)
            call_fn(ip, st, fv, (elem(l, p, lo + base),))
        return None


def q_binary_search_by(ip, st, a, t):
    l, p, rng, x = seq_loc(ip, st, a[0])
    lo, hi = seq_rng(x, rng)
    ip.push_native(st, BSearchBy(), (l, p, lo, hi, a[1], hi - lo, 0, False))
    return CALLED


# ----- iterators -----
def it_next(ip, st, it):
    """(item or None, iterator after)."""
    k = it[1]
    if k == 'slice':
        r = it[2]
        lo, hi = r[3]
        if lo >= hi:
            return None, it
        return elem(r[1], r[2], lo), ('I', 'slice', ('R', r[1], r[2], (lo + 1, hi)))
    if k == 'own':
        if not it[2]:
            return None, it
        return it[2][0], ('I', 'own', it[2][1:])
    if k == 'bytes' or k == 'bytesv':
        r = st.pop_byte(it[2])
        if r is None:
            return None, it
        b = ip.byte(st, r[0])
        return (b if k == 'bytesv' else ('R', st.alloc(b), (), None)), ('I', k, st.norm(r[1]))
    if k == 'chars':
        r = st.pop_char(it[2])
        if r is None:
            return None, it
        return ('ch', st.norm(r[0])), ('I', 'chars', st.norm(r[1]))
    if k == 'chidx':
        r = st.pop_char(it[2])
        if r is None:
            return None, it
        off = it[3]
        return TUP(off, ('ch', st.norm(r[0]))), ('I', 'chidx', st.norm(r[1]), ladd(off, st.slen(r[0])))
    if k == 'split' or k == 'splitt':
        if not it[4]:
            return None, it
        if k == 'splitt' and st.is_empty(it[2]):
            return None, ('I', k, (), it[3], False)
        r = find_lit(st, it[2], it[3])
        if r is None:
            return ('S', st.norm(it[2])), ('I', k, (), it[3], False)
        return ('S', st.norm(r[0])), ('I', k, st.norm(r[1]), it[3], True)
    if k == 'splitn':
        if it[4] == 0:
            return None, it
        r = find_lit(st, it[2], it[3]) if it[4] != 1 else None
        if r is None:
            return ('S', st.norm(it[2])), ('I', k, (), it[3], 0)
        return ('S', st.norm(r[0])), ('I', k, st.norm(r[1]), it[3], it[4] - 1)
    if k == 'u8c':
        if st.is_empty(it[2]):
            return None, it
        v, inv, rest = st.utf8_split(it[2])
        return ('X', 'u8chunk', st.norm(v), st.norm(inv)), ('I', 'u8c', st.norm(rest))
    raise Unsupported('iterator %s' % k)


def it_loc(ip, st, v):
    while True:
        l = rloc(v)
        x = ip.read(st, *l)
        if isinstance(x, tuple) and x[0] == 'I':
            return l, x
        if isinstance(x, tuple) and x[0] in ('R', 'D'):
            v = x
            continue
        raise Unsupported('not an iterator')


def i_next(ip, st, a, t):
    l, it = it_loc(ip, st, a[0])
    v, it2 = it_next(ip, st, it)
    ip.write(st, l[0], l[1], it2)
    return NONE() if v is None else SOME(v)


def it_next_back(ip, st, it):
    k = it[1]
    if k == 'slice':
        r = it[2]
        lo, hi = r[3]
        if lo >= hi:
            return None, it
        return elem(r[1], r[2], hi - 1), ('I', 'slice', ('R', r[1], r[2], (lo, hi - 1)))
    if k == 'own':
        if not it[2]:
            return None, it
        return it[2][-1], ('I', 'own', it[2][:-1])
    raise Unsupported('next_back on %s' % k)


def i_next_back(ip, st, a, t):
    l, it = it_loc(ip, st, a[0])
    v, it2 = it_next_back(ip, st, it)
    ip.write(st, l[0], l[1], it2)
    return NONE() if v is None else SOME(v)


def i_clone(ip, st, a, t):
    return peel(ip, st, a[0])


def i_size_hint(ip, st, a, t):
    it = peel(ip, st, a[0])
    if it[1] == 'slice':
        n = it[2][3][1] - it[2][3][0]
        return TUP(n, SOME(n))
    if it[1] == 'own':
        return TUP(len(it[2]), SOME(len(it[2])))
    return TUP(0, NONE())


def i_len(ip, st, a, t):
    return i_size_hint(ip, st, a, t)[3][0]


def i_as_str(ip, st, a, t):
    it = peel(ip, st, a[0])
    if it[1] in ('chars', 'chidx', 'bytes', 'bytesv'):
        return ('S', st.norm(it[2]))
    if it[1] == 'slice':
        return it[2]
    raise Unsupported('as_str of iterator')


class IterLoop(Native):
    """Iterator methods driven by a closure, on a native iterator."""
    name = key = 'iterator loop'

    def step(self, ip, st, fr, ret):
        mode, loc, fv, acc, cur, i = fr[1]
        if ret is not None:
            if mode == 'all':
                if ret is False:
                    return ip.ret(st, False)
            elif mode == 'any':
                if ret is True:
                    return ip.ret(st, True)
            elif mode == 'find':
                if ret is True:
                    return ip.ret(st, SOME(cur))
            elif mode == 'find_map':
                if ret[2] == 1:
                    return ip.ret(st, ret)
            elif mode in ('position', 'rposition'):
                if ret is True:
                    return ip.ret(st, SOME(i - 1))
            elif mode == 'fold':
                acc = ret
            elif mode == 'try_fold':
                # Option: None breaks; Result: Err breaks; ControlFlow: Break breaks
                br, val = self.branch(ip, ret)
                if br:
                    return ip.ret(st, ret)
                acc = val
        it = ip.read(st, *loc)
        v, it2 = it_next(ip, st, it)
        ip.write(st, loc[0], loc[1], it2)
        if v is None:
            return ip.ret(st, {'all': lambda: True, 'any': lambda: False, 'find': NONE, 'find_map': NONE, 'position': NONE, 'rposition': NONE,
                               'fold': lambda: acc, 'for_each': lambda: UNIT, 'try_fold': lambda: self.wrap(ip, fr[6].get('dty'), acc)}[mode]())
        fr[1] = (mode, loc, fv, acc, v, i + 1)
        if mode in ('find',):
            call_fn(ip, st, fv, (('R', st.alloc(v), (), None),))
        elif mode in ('fold', 'try_fold'):
            call_fn(ip, st, fv, (acc, v))
        else:
            call_fn(ip, st, fv, (v,))
        return None

    @staticmethod
    def adt(ip, v):
        if v[1] is not None and isinstance(v[1], int):
            return ip.prog.types[v[1]].get('adt', '')
        return ''

    def branch(self, ip, v):
        n = self.adt(ip, v)
        if n.endswith('ControlFlow'):
            return v[2] == 1, v[3][0] if v[3] else UNIT
        if n.endswith('Option'):
            return v[2] == 0, v[3][0] if v[3] else UNIT
        if n.endswith('Result'):
            return v[2] == 1, v[3][0]
        raise Unsupported('try_fold over untyped result')

    def wrap(self, ip, dty, acc):
        n = ip.prog.types[dty].get('adt', '') if dty is not None else ''
        if n.endswith('Option'):
            return ('A', dty, 1, (acc,))
        return ('A', dty, 0, (acc,))


def i_loop(mode, byval=False):
    def f(ip, st, c, a, t):
        v = a[0]
        if isinstance(v, tuple) and v[0] == 'I':
            loc = (st.alloc(v), ())
        else:
            loc, _ = it_loc(ip, st, v)
        it = ip.read(st, *loc)
        if mode in ('all', 'any') and it[1] in ('bytes', 'bytesv', 'chars'):
            segs = st.norm(it[2])
            if not all(type(s) is bytes for s in segs):
                try:
                    if it[1] == 'bytes':
                        cls = byte_class_ref(ip, st, a[1])
                    elif it[1] == 'bytesv':
                        cls = byte_class(ip, st, a[1], lambda b: (b,))
                    else:
                        cls = char_class(ip, st, a[1])
                    if cls is not None:
                        if mode == 'all':
                            return st.all_bytes(segs, cls)
                        return not st.all_bytes(segs, ALL - cls)
                except Mixed as e:
                    return chars_all(st, segs, e.args[0], repr(peel(ip, st, a[1]) if a[1][0] == 'R' else a[1]), mode == 'all') == (mode == 'all')
        if mode in ('fold', 'try_fold'):
            data = (mode, loc, a[2], a[1], None, 0)
        else:
            data = (mode, loc, a[1], None, None, 0)
        ip.push_native(st, IterLoop(), data)
        st.stack[-1][6]['dty'] = t
        return CALLED
    return f


def byte_class_ref(ip, st, fv):
    cls = set()
    for b in range(256):
        s = st.copy()
        r = ('R', s.alloc(b), (), None)
        try:
            v, _ = eval_fn(ip, s, fv, (r,))
        except Fork:
            raise Unsupported('predicate depends on unknown input')
        if v is True:
            cls.add(b)
        elif v is not False:
            raise Unsupported('predicate result')
    return frozenset(cls)


def i_count(ip, st, c, a, t):
    it = a[0]
    n = 0
    while True:
        v, it = it_next(ip, st, it)
        if v is None:
            return n
        n += 1
        if n > 10000:
            raise Unsupported('count')


def i_last(ip, st, c, a, t):
    it = a[0]
    last = None
    for _ in range(10000):
        v, it = it_next(ip, st, it)
        if v is None:
            return NONE() if last is None else SOME(last)
        last = v
    raise Unsupported('last')


def i_nth(ip, st, c, a, t):
    l, it = it_loc(ip, st, a[0])
    v = None
    for _ in range(a[1] + 1):
        v, it = it_next(ip, st, it)
        if v is None:
            break
    ip.write(st, l[0], l[1], it)
    return NONE() if v is None else SOME(v)


def i_collect(ip, st, c, a, t):
    it = a[0]
    if not (isinstance(it, tuple) and it[0] == 'I'):
        return FALL
    n = ip.prog.types[t].get('adt', '') if t is not None else ''
    if not n.endswith('Vec'):
        return FALL
    out = []
    for _ in range(100000):
        v, it = it_next(ip, st, it)
        if v is None:
            return ('V', None, tuple(out))
        out.append(v)
    raise Unsupported('collect')


def chunk(i):
    def f(ip, st, a, t):
        x = peel(ip, st, a[0])
        if x[0] == 'X' and x[1] == 'u8chunk':
            return ('S', st.norm(x[2 + i]))
        return FALL
    return f


# ----- numbers, chars, bytes -----
def num_method(n):
    def f(ip, st, c, a, t):
        a = [peel(ip, st, x) if isinstance(x, tuple) and x[0] == 'R' else x for x in a]
        x, y = a[0], a[1] if len(a) > 1 else None
        t0 = t
        if n in ('saturating_sub',):
            if st.le(x, y):
                return 0
            return ladd(x, y, -1)
        if n in ('saturating_add', 'unchecked_add', 'strict_add'):
            r = ladd(x, y)
            lo, hi, b, s = ip.intrange(t0)
            return r if st.le(r, hi) else hi
        if n == 'unchecked_sub' or n == 'strict_sub':
            return ladd(x, y, -1)
        if n in ('wrapping_add', 'wrapping_sub'):
            lo, hi, b, s = ip.intrange(t0)
            r = ladd(x, y, 1 if n == 'wrapping_add' else -1)
            if isinstance(r, int):
                return (r - lo) % (1 << b) + lo
            if st.le(r, hi) and st.le(lo, r):
                return r
            raise Unsupported(n)
        if n in ('checked_sub', 'checked_add'):
            r = ladd(x, y, 1 if n == 'checked_add' else -1)
            t1 = ip.prog.types[t]['args'][0] if t is not None else None
            lo, hi, b, s = ip.intrange(t1)
            return SOME(r) if st.le(lo, r) and st.le(r, hi) else NONE()
        if n in ('max', 'min'):
            le = st.le(x, y)
            return (y if le else x) if n == 'max' else (x if le else y)
        if n == 'pow' and isinstance(x, int) and isinstance(y, int):
            return x ** y
        if n == 'is_power_of_two' and isinstance(x, int):
            return x > 0 and x & (x - 1) == 0
        if n in ('trailing_zeros', 'leading_zeros', 'count_ones') and isinstance(x, int):
            if n == 'count_ones':
                return bin(x).count('1')
            if n == 'trailing_zeros':
                return (x & -x).bit_length() - 1 if x else 64
        if n == 'abs_diff':
            return ladd(y, x, -1) if st.le(x, y) else ladd(x, y, -1)
        return FALL
    return f


CLASSES = {
    'is_ascii_digit': DIGITS, 'is_ascii_uppercase': UPPER, 'is_ascii_lowercase': frozenset(range(97, 123)),
    'is_ascii_alphabetic': UPPER | frozenset(range(97, 123)), 'is_ascii_alphanumeric': UPPER | DIGITS | frozenset(range(97, 123)),
    'is_ascii': frozenset(range(128)), 'is_ascii_control': frozenset(range(32)) | {127}, 'is_ascii_whitespace': frozenset(b' \t\n\r\x0c'),
    'is_ascii_hexdigit': DIGITS | frozenset(b'abcdefABCDEF'), 'is_ascii_punctuation': frozenset(x for x in range(33, 127) if not chr(x).isalnum()),
    'is_ascii_graphic': frozenset(range(33, 127)),
}


def cls_method(cls):
    def f(ip, st, c, a, t):
        v = peel(ip, st, a[0])
        if isinstance(v, int) and not isinstance(v, bool):
            return v in cls
        if isinstance(v, tuple) and v[0] in ('ch', 'by'):
            return ip.first_in(st, v[1], cls)
        return FALL
    return f


CHAR = {
    'is_numeric': lambda c: unicodedata.category(c)[0] == 'N', 'is_alphabetic': lambda c: c.isalpha() or unicodedata.category(c) == 'Nl',
    'is_alphanumeric': lambda c: c.isalpha() or unicodedata.category(c)[0] == 'N', 'is_control': lambda c: unicodedata.category(c) == 'Cc',
    'is_whitespace': lambda c: c.isspace() and c not in '\x1c\x1d\x1e\x1f', 'is_uppercase': str.isupper, 'is_lowercase': str.islower,
}


def ch_unicode(name):
    def f(ip, st, a, t):
        s = st.norm(peel(ip, st, a[0])[1])
        if type(s[0]) is bytes:
            return bool(CHAR[name](s[0].decode()))
        if ip.first_in(st, s, frozenset(range(128))):
            return ip.first_in(st, s, frozenset(b for b in range(128) if CHAR[name](chr(b))))
        return st.atom('char ' + name, s)
    return f


def ch_len(ip, st, a, t):
    return st.slen(peel(ip, st, a[0])[1])


def ch_encode(ip, st, a, t):
    segs = st.norm(peel(ip, st, a[0])[1])
    buf = a[1]
    try:
        l, p, rng, x = seq_loc(ip, st, buf)
        ip.write(st, l, p, ('T', (('?', 'utf8 buffer'),) * len(x[1])))
    except Unsupported:
        pass
    return ('S', segs)


def ch_is_digit(ip, st, a, t):
    if a[1] == 10:
        return ip.first_in(st, peel(ip, st, a[0])[1], DIGITS)
    raise Unsupported('is_digit')


def ch_lower(ip, st, a, t):
    v = peel(ip, st, a[0])
    if isinstance(v, int):
        return v + 32 if v in UPPER else v
    r = st.lower(st.norm(v[1]))
    return (v[0], r)


def ch_to_string(ip, st, a, t):
    return ('O', st.norm(peel(ip, st, a[0])[1]))


def ch_eqic(ip, st, a, t):
    x, y = peel(ip, st, a[0]), peel(ip, st, a[1])
    def sg(v):
        return (bytes([v]),) if isinstance(v, int) else v[1]
    return st.eq(st.lower(st.norm(sg(x))), st.lower(st.norm(sg(y))))


# ----- comparison traits -----
def t_eq(neg):
    def f(ip, st, c, a, t):
        x, y = peel(ip, st, a[0]), peel(ip, st, a[1])
        leaf = lambda v: not isinstance(v, tuple) or v[0] in ('S', 'O', 'SM', 'ch', 'by', 'L', 'T', 'I')
        if leaf(x) and leaf(y):
            return veq(ip, st, x, y) != neg
        sx, sy = strs(ip, st, x), strs(ip, st, y)
        if sx is not None and sy is not None:
            return st.eq(sx, sy) != neg
        if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == 'A' and y[0] == 'A' and not x[3] and not y[3] and c.get('crate') in STD:
            return (x[2] == y[2]) != neg
        if neg:
            if isinstance(x, tuple) and isinstance(y, tuple) and x[0] in ('A', 'V') and c.get('crate') in STD:
                return not veq(ip, st, x, y)
        if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == 'V' and y[0] == 'V' and x[1] is None and y[1] is None:
            return (len(x[2]) == len(y[2]) and all(veq(ip, st, p, r) for p, r in zip(x[2], y[2]))) != neg
        return FALL
    return f


def t_cmp(kind):
    def f(ip, st, c, a, t):
        x, y = peel(ip, st, a[0]), peel(ip, st, a[1])
        num = lambda v: isinstance(v, (int, bool)) or isinstance(v, tuple) and v[0] in ('L',)
        if num(x) and num(y) or isinstance(x, tuple) and x[0] in ('ch', 'by') and kind in ('lt', 'le', 'gt', 'ge'):
            if kind in ('lt', 'le', 'gt', 'ge'):
                return ip.compare(st, kind.capitalize(), x, y)
            o = -1 if ip.compare(st, 'Lt', x, y) else (0 if ip.compare(st, 'Eq', x, y) else 1)
        else:
            sx, sy = strs(ip, st, x), strs(ip, st, y)
            if sx is None or sy is None:
                if isinstance(x, tuple) and x[0] in ('ch', 'by') or isinstance(y, tuple) and y[0] in ('ch', 'by'):
                    o = -1 if ip.compare(st, 'Lt', x, y) else (0 if ip.compare(st, 'Eq', x, y) else 1)
                else:
                    return FALL
            else:
                o = st.cmp(sx, sy)
        r = ip.models.ordering(o)
        if kind == 'cmp':
            return r
        if kind == 'partial_cmp':
            return SOME(r)
        return {'lt': o < 0, 'le': o <= 0, 'gt': o > 0, 'ge': o >= 0}[kind]
    return f


def t_minmax(n):
    def f(ip, st, c, a, t):
        if recv_kind(ip, st, a[0]) == 'int':
            return num_method(n)(ip, st, c, a, t)
        return FALL
    return f


def t_default(ip, st, c, a, t):
    ty = tyname(ip, t)
    if ty is None:
        return FALL
    if ty['k'] == 'ref' and ip.prog.types[ty['to']]['k'] in ('str', 'slice') or ty['k'] == 'ref' and ip.prog.types[ty['to']].get('adt') in ('std::ffi::OsStr', 'std::path::Path'):
        return ('S', ())
    if ty['k'] == 'adt':
        n = ty['adt']
        if n in ('std::string::String', 'std::ffi::OsString', 'std::path::PathBuf'):
            return ('O', ())
        if n.endswith('::Vec'):
            return ('V', None, ()) if not is_u8vec(ip, ty) else ('O', ())
    if ty['k'] == 'int':
        return 0
    if ty['k'] == 'bool':
        return False
    return FALL


def is_u8vec(ip, ty):
    return bool(ty.get('args')) and ip.prog.types[ty['args'][0]]['n'] == 'u8'


def t_clone(ip, st, c, a, t):
    v = a[0]
    if isinstance(v, tuple) and v[0] == 'S':
        return v
    if isinstance(v, tuple) and v[0] == 'R':
        x = ip.read(st, v[1], v[2])
        if not isinstance(x, tuple) or x[0] in ('S', 'O', 'ch', 'by', 'L', 'I', 'Z', 'P', 'R', 'X'):
            if isinstance(x, tuple) and x[0] == 'R' and tyname(ip, t)['k'] not in ('ref', 'ptr'):
                return FALL
            return x
        if x[0] in ('V', 'T'):
            return x
    return FALL


def new_vec(ip, st, c, a, t):
    ty = tyname(ip, t)
    if ty is not None and is_u8vec(ip, ty):
        return ('O', ())
    return ('V', None, ())


def new_str(ip, st, c, a, t):
    return ('O', ())


def box_new(ip, st, c, a, t):
    return ('R', st.alloc(a[0]), (), None)


def ident(ip, st, c, a, t):
    return a[0]


def panic(ip, st, c, a, t):
    msg = ''
    for x in a:
        try:
            s = strs(ip, st, x)
            if s:
                msg = show(st, s)
                break
        except Unsupported:
            pass
    raise Panic('%s%s' % (c['def'].rsplit('::', 1)[-1], (': ' + msg) if msg else ''))


def mem_replace(ip, st, c, a, t):
    l = rloc(a[0])
    old = ip.read(st, *l)
    ip.write(st, l[0], l[1], a[1])
    return old


def mem_swap(ip, st, c, a, t):
    x, y = rloc(a[0]), rloc(a[1])
    vx, vy = ip.read(st, *x), ip.read(st, *y)
    ip.write(st, x[0], x[1], vy)
    ip.write(st, y[0], y[1], vx)
    return UNIT


def ptr_read(ip, st, c, a, t):
    return ip.read(st, *rloc(a[0]))


def ptr_write(ip, st, c, a, t):
    l = rloc(a[0])
    ip.write(st, l[0], l[1], a[1])
    return UNIT


def path_join(ip, st, a, t):
    raise Unsupported('path join')


# ----- conversions of built-in value types -----
def int_from_str(ip, st, c, a, t):
    ty = tyname(ip, t)
    inner = ip.prog.types[ty['args'][0]]
    segs = st.norm(strs(ip, st, a[0]))
    if inner['k'] == 'int':
        l = lits(st, segs)
        if l is not None:
            try:
                v = int(l.decode())
                lo, hi, b, s = ip.intrange(ty['args'][0])
                if lo <= v <= hi and not l.startswith(b'_') and b'_' not in l and b' ' not in l:
                    return OK(v)
            except ValueError:
                pass
            return ERR(('X', 'interr', segs))
        n = 'parse_' + inner['n']
        if st.atom(n, segs):
            return OK(('X', n, segs))
        return ERR(('X', n + '_err', segs))
    if inner['k'] in ('bool', 'char', 'float') or inner['n'] in ('f32', 'f64'):
        n = 'parse_' + inner['n']
        l = lits(st, segs)
        if inner['n'] == 'bool' and l is not None:
            return OK(l == b'true') if l in (b'true', b'false') else ERR(('X', n + '_err', segs))
        if st.atom(n, segs):
            return OK(('X', n, segs))
        return ERR(('X', n + '_err', segs))
    if inner.get('adt') in ('std::string::String', 'std::path::PathBuf', 'std::ffi::OsString'):
        return OK(('O', segs))
    return FALL


def str_parse(ip, st, c, a, t):
    r = int_from_str(ip, st, c, a, t)
    return r


# ----- formatting -----
# Formatter value: ('A', 'FMT', 0, (out, precision, width, flags, fill))
def mk_formatter(out, prec=None, width=None, flags=0, fill=None):
    return ('A', 'FMT', 0, (out, SOME(prec) if prec is not None else NONE(), SOME(width) if width is not None else NONE(), flags, fill))


def is_fmt(ip, x):
    return isinstance(x, tuple) and x[0] == 'A' and (x[1] == 'FMT' or isinstance(x[1], int) and ip.prog.types[x[1]].get('adt') == 'std::fmt::Formatter')


def fmt_of(ip, st, v):
    x = peel(ip, st, v)
    if not is_fmt(ip, x):
        raise Unsupported('formatter %r' % (x,))
    if x[1] != 'FMT':
        # built by library code: {options: {flags, width, precision}, buf}
        opt, buf = x[3]
        fl, w, p = opt[3]
        return mk_formatter(buf, p if fl & (1 << 28) else None, w if fl & (1 << 27) else None, fl)
    return x


class WriteOut(Native):
    """Write text to a user-defined fmt::Write sink."""
    name = key = 'write_str'

    def step(self, ip, st, fr, ret):
        return ip.ret(st, ret)


def sink_write(ip, st, out, segs):
    """Append to the sink. True when done, False when a frame was pushed."""
    v = out
    while True:
        if v[0] == 'SM':
            append(ip, st, v, segs)
            return True
        if v[0] == 'D':
            tid = v[2]
            x = v[1]
            n = ip.prog.types[tid]
            if n.get('adt') in ('std::string::String', 'std::ffi::OsString'):
                append(ip, st, x, segs)
                return True
            key = ip.prog.vt.get((tid, 'std::fmt::Write::write_str')) or ip.prog.vt.get((n['n'], 'std::fmt::Write::write_str'))
            if key is None or ip.prog.fn(key) is None:
                raise Unsupported('sink %s' % n['n'])
            ip.push(st, ip.prog.fn(key), [x, ('S', tuple(segs))], None, None)
            return False
        x = ip.read(st, *rloc(v))
        if isinstance(x, tuple) and x[0] == 'O':
            append(ip, st, v, segs)
            return True
        if is_fmt(ip, x):
            v = fmt_of(ip, st, x)[3][0]
            continue
        if isinstance(x, tuple) and x[0] in ('R', 'D', 'SM'):
            v = x
            continue
        raise Unsupported('sink %r' % (x[:1],))


def f_write_str(ip, st, c, a, t):
    k = recv_kind(ip, st, a[0])
    if k == 'fmt':
        x = fmt_of(ip, st, a[0])
        out = x[3][0]
    elif k == 'str':
        out = a[0]
    elif a[0][0] == 'D':
        out = a[0]
    else:
        return FALL
    segs = a[1][1] if a[1][0] == 'ch' else strs(ip, st, a[1])
    if segs is None:
        return FALL
    if sink_write(ip, st, out, st.norm(segs)):
        return OK()
    return CALLED


def f_pad(ip, st, c, a, t):
    x = fmt_of(ip, st, a[0])
    segs = st.norm(strs(ip, st, a[1]))
    if x[3][1][2] == 1:
        p = x[3][1][3][0]
        l = lits(st, segs)
        if l is None:
            raise Unsupported('precision on unknown text')
        segs = q(l.decode()[:p].encode())
    if x[3][2][2] == 1:
        w = x[3][2][3][0]
        l = lits(st, segs)
        if l is None:
            raise Unsupported('width on unknown text')
        s = l.decode()
        segs = q(s.ljust(w).encode())
    if sink_write(ip, st, x[3][0], segs):
        return OK()
    return CALLED


def f_precision(ip, st, c, a, t):
    return fmt_of(ip, st, a[0])[3][1]


def f_width(ip, st, c, a, t):
    return fmt_of(ip, st, a[0])[3][2]


def f_alternate(ip, st, c, a, t):
    return bool(fmt_of(ip, st, a[0])[3][3] & (1 << 23))


def args_new(ip, st, c, a, t):
    tmpl = strs(ip, st, a[0])
    if tmpl is None:
        raise Unsupported('format template')
    tmpl = b''.join(tmpl)
    argv = items_of(ip, st, a[1])
    if argv is None:
        raise Unsupported('format arguments')
    return ('X', 'args', ('raw', tmpl), argv)


def args_str(ip, st, c, a, t):
    return ('X', 'args', ('str', strs(ip, st, a[0])), ())


def args_as_str(ip, st, c, a, t):
    x = peel(ip, st, a[0])
    if x[2][0] == 'str':
        return SOME(('S', x[2][1]))
    return NONE()


def decode_template(b):
    """Pieces: ('lit', bytes) | ('arg', index, flags, width, precision); width/precision int, ('dyn', i) or None."""
    out = []
    i = 0
    nxt = 0
    while i < len(b):
        n = b[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            out.append(('lit', b[i:i + n]))
            i += n
        elif n == 0x80:
            ln = b[i] | b[i + 1] << 8
            i += 2
            out.append(('lit', b[i:i + ln]))
            i += ln
        else:
            flags = None
            w = p = None
            idx = nxt
            if n != 0xC0:
                if n & 1:
                    flags = int.from_bytes(b[i:i + 4], 'little')
                    i += 4
                if n & 2:
                    w = int.from_bytes(b[i:i + 2], 'little')
                    i += 2
                    if n & 16:
                        w = ('dyn', w)
                if n & 4:
                    p = int.from_bytes(b[i:i + 2], 'little')
                    i += 2
                    if n & 32:
                        p = ('dyn', p)
                if n & 8:
                    idx = int.from_bytes(b[i:i + 2], 'little')
                    i += 2
            out.append(('arg', idx, flags, w, p))
            nxt = idx + 1
    return out


def arg_parts(ip, st, a):
    """(value reference, fmt callable) of a core::fmt::rt::Argument, or ('count', n)."""
    x = a
    found = []

    def walk(v, d=0):
        if not isinstance(v, tuple) or d > 6:
            if isinstance(v, int):
                found.append(('n', v))
            return
        if v[0] == 'P' or v[0] == 'Z':
            found.append(('f', v))
        elif v[0] in ('R', 'D', 'S', 'SM'):
            found.append(('v', v))
        elif v[0] == 'A':
            for y in v[3]:
                walk(y, d + 1)
    walk(x)
    v = [y for k, y in found if k == 'v']
    f = [y for k, y in found if k == 'f' and not (y[0] == 'Z' and not ip.prog.types[y[1]].get('callee'))]
    if not f:
        n = [y for k, y in found if k == 'n']
        if n:
            return None, n[0]
    if len(v) != 1 or len(f) != 1:
        raise Unsupported('format argument %r' % (x,))
    return v[0], f[0]


class FmtWrite(Native):
    name = key = 'format'

    def step(self, ip, st, fr, ret):
        out, args, i = fr[1]
        if ret is not None:
            if ret[2] == 1:
                return ip.ret(st, ret)
        if args[2][0] == 'str':
            pieces = (('lit', args[2][1]),)
        else:
            pieces = decode_template(args[2][1])
        if i >= len(pieces):
            return ip.ret(st, OK())
        p = pieces[i]
        fr[1] = (out, args, i + 1)
        if p[0] == 'lit':
            segs = p[1] if isinstance(p[1], tuple) else q(p[1])
            sink_write(ip, st, out, segs)
            return None
        _, idx, flags, w, pr = p
        w = self.count(ip, st, args, w)
        pr = self.count(ip, st, args, pr)
        v, f = arg_parts(ip, st, args[3][idx])
        fl = 0
        if flags is not None:
            fl = flags
        fmt = ('R', st.alloc(mk_formatter(out, pr, w, fl)), (), None)
        call_fn(ip, st, f, (v, fmt))
        return None

    def count(self, ip, st, args, w):
        if isinstance(w, tuple):
            v, n = arg_parts(ip, st, args[3][w[1]])
            if v is not None:
                n = peel(ip, st, v)
            return n
        return w


def f_write_fmt(ip, st, c, a, t):
    args = a[1]
    if isinstance(args, tuple) and args[0] == 'R':
        args = peel(ip, st, args)
    if not (isinstance(args, tuple) and args[0] == 'X' and args[1] == 'args'):
        raise Unsupported('write_fmt of %r' % (args[:2],))
    k = recv_kind(ip, st, a[0])
    out = a[0]
    if k == 'fmt':
        out = fmt_of(ip, st, a[0])[3][0]
    elif k != 'str' and a[0][0] != 'D':
        return FALL
    ip.push_native(st, FmtWrite(), (out, args, 0))
    return CALLED


class FmtFormat(Native):
    name = key = 'format!'

    def step(self, ip, st, fr, ret):
        if ret is None:
            loc, args = fr[1]
            st.stack.append([FmtWrite(), (('R', loc, (), None), args, 0), None, None, None, None, {}])
            return None
        return ip.ret(st, ip.read(st, fr[1][0], ()))


def f_format(ip, st, c, a, t):
    loc = st.alloc(('O', ()))
    ip.push_native(st, FmtFormat(), (loc, a[0]))
    return CALLED


class ToString(Native):
    name = key = 'to_string'

    def step(self, ip, st, fr, ret):
        if ret is None:
            loc, v, callee = fr[1]
            fmt = ('R', st.alloc(mk_formatter(('R', loc, (), None))), (), None)
            ip.call(st, callee, [v, fmt], None, None)
            return None
        if ret[2] == 1:
            raise Panic('a Display implementation returned an error unexpectedly')
        return ip.ret(st, ip.read(st, fr[1][0], ()))


def t_to_string(ip, st, c, a, t):
    s = strs(ip, st, a[0])
    if s is not None:
        return ('O', st.norm(s))
    v = peel(ip, st, a[0])
    if isinstance(v, tuple) and v[0] == 'ch':
        return ('O', st.norm(v[1]))
    if isinstance(v, int) and not isinstance(v, bool):
        return ('O', (str(v).encode(),))
    return FALL


def f_new(ip, st, c, a, t):
    return mk_formatter(a[0])


def t_display(debug):
    def f(ip, st, c, a, t):
        v = peel(ip, st, a[0])
        s = strs(ip, st, v)
        x = fmt_of(ip, st, a[1])
        if s is not None:
            s = st.norm(s)
            if debug:
                out = (('dbg', s),)
                if sink_write(ip, st, x[3][0], out):
                    return OK()
                return CALLED
            return f_pad(ip, st, c, [a[1], ('S', s)], t)
        if isinstance(v, tuple) and v[0] == 'ch':
            return f_pad(ip, st, c, [a[1], ('S', st.norm(v[1]))], t)
        if isinstance(v, bool):
            return f_pad(ip, st, c, [a[1], ('S', (b'true' if v else b'false',))], t)
        if isinstance(v, int):
            return f_pad(ip, st, c, [a[1], ('S', (str(v).encode(),))], t)
        if isinstance(v, tuple) and v[0] == 'L':
            seg = (('disp', 'int', repr(v)),)
        elif isinstance(v, tuple) and v[0] == 'X' and v[1] == 'args':
            ip.push_native(st, FmtWrite(), (x[3][0], v, 0))
            return CALLED
        elif isinstance(v, tuple) and v[0] == 'X':
            seg = (('disp', v[1], st.norm(v[2]) if isinstance(v[2], tuple) else v[2]),)
        else:
            return FALL
        if sink_write(ip, st, x[3][0], seg):
            return OK()
        return CALLED
    return f


def dbg_finish(ip, st, c, a, t):
    x = fmt_of(ip, st, a[0])
    if sink_write(ip, st, x[3][0], (('disp', 'debug', ()),)):
        return OK()
    return CALLED


def io_effect(ip, st, c, a, t):
    raise Unsupported('side effect %s' % c['def'])


EXACT = {}
ANY = {}
RECV = {}
TRAIT = {}



def nz_new(ip, st, c, a, t):
    return NONE() if ip.compare(st, 'Eq', a[0], 0) else SOME(a[0])


for n in ('std::num::NonZero::<T>::', 'core::num::NonZero::<T>::', 'core::num::nonzero::NonZero::<T>::'):      # represented by its integer
    EXACT[n + 'new'] = nz_new
    EXACT[n + 'get'] = EXACT[n + 'new_unchecked'] = lambda ip, st, c, a, t: a[0]
for n in ('std::boxed::Box::<T>::new', 'alloc::boxed::Box::<T>::new'):
    EXACT[n] = box_new
def type_name(ip, st, callee, a, t):
    n = callee.get('inst') or ''
    if '::<' not in n or not n.endswith('>'):
        raise Unsupported('type_name')
    return ('S', q(n[n.index('::<') + 3:-1].encode()))


EXACT['std::any::type_name'] = type_name
EXACT.update({
    'std::string::String::new': new_str, 'std::string::String::with_capacity': new_str,
    'std::ffi::OsString::new': new_str, 'std::ffi::OsString::with_capacity': new_str,
    'std::path::PathBuf::new': new_str,
    'std::vec::Vec::<T>::new': new_vec, 'std::vec::Vec::<T>::with_capacity': new_vec,
    'std::str::from_utf8': s_from_utf8, 'core::str::from_utf8': s_from_utf8, 'std::str::converts::from_utf8': s_from_utf8,
    'core::str::<impl str>::from_utf8': s_from_utf8, 'std::string::String::from_utf8': s_from_utf8,
    'core::panicking::panic': panic, 'core::panicking::panic_fmt': panic, 'core::panicking::unreachable_default_msg': panic, 'std::rt::panic_fmt': panic,
    'core::panicking::panic_nounwind_fmt': panic, 'core::panicking::panic_nounwind': panic, 'core::panicking::panic_display': panic,
    'core::panicking::panic_explicit': panic, 'core::panicking::unreachable_display': panic, 'std::rt::begin_panic': panic,
    'core::panicking::panic_const::panic_const_async_fn_resumed': panic,
    'core::panicking::assert_failed': panic, 'core::panicking::panic_bounds_check': panic, 'core::panicking::panic_str_2015': panic,
    'std::option::unwrap_failed': panic, 'std::option::expect_failed': panic, 'std::result::unwrap_failed': panic,
    'core::slice::index::slice_index_fail': panic, 'core::str::slice_error_fail': panic, 'std::process::abort': panic,
    'std::cell::panic_already_borrowed': panic, 'std::cell::panic_already_mutably_borrowed': panic,
    'std::hint::unreachable_unchecked': panic,
    'std::mem::replace': mem_replace, 'std::mem::swap': mem_swap, 'std::ptr::read': ptr_read, 'std::ptr::write': ptr_write,
    'std::mem::drop': noop, 'std::mem::forget': noop,
    'std::fmt::Arguments::<\'a>::new': args_new, 'std::fmt::Arguments::<\'a>::from_str': args_str, 'std::fmt::Arguments::<\'a>::from_str_nonconst': args_str,
    'std::fmt::Arguments::<\'a>::new_const': args_str, 'std::fmt::Arguments::<\'a>::as_str': args_as_str, 'std::fmt::Arguments::<\'a>::as_statically_known_str': args_as_str,
    'std::fmt::write': f_write_fmt, 'std::fmt::format': f_format, 'alloc::fmt::format': f_format, 'std::fmt::Formatter::<\'a>::write_fmt': f_write_fmt,
    'std::fmt::Formatter::<\'a>::write_str': f_write_str, 'std::fmt::Formatter::<\'a>::pad': f_pad, 'std::fmt::Formatter::<\'a>::precision': f_precision,
    'std::fmt::Formatter::<\'a>::width': f_width, 'std::fmt::Formatter::<\'a>::alternate': f_alternate, 'std::fmt::Formatter::<\'a>::new': f_new,
    'std::fmt::FormattingOptions::new': lambda ip, st, c, a, t: ('A', None, 0, ()),
    'std::convert::identity': ident, 'std::hint::black_box': ident,
    'std::hint::must_use': ident,
    'std::env::args_os': args_os, '<std::env::ArgsOs as std::iter::Iterator>::next': env_item, 'std::process::exit': process_exit, 'std::io::_eprint': std_print(1), 'std::io::_print': std_print(2),
    'std::ffi::OsStr::new': to_str, 'std::path::Path::new': to_str,
    'std::string::String::from_utf8_lossy': s_lossy,
    'core::str::<impl str>::parse': str_parse,
    'std::ffi::OsStr::from_encoded_bytes_unchecked': to_str,
    'std::ffi::OsString::from_encoded_bytes_unchecked': to_str,
    'std::str::from_utf8_unchecked': to_str,
    'std::str::FromStr::from_str': int_from_str,
    'std::string::ToString::to_string': t_to_string,
})
for m in ('as_bytes', 'as_encoded_bytes', 'as_os_str', 'as_str', 'as_path', 'as_slice', 'to_owned', 'to_os_string', 'to_path_buf', 'into_os_string', 'into_encoded_bytes',
          'into_bytes', 'into_boxed_str', 'into_string_', 'deref', 'deref_mut', 'as_ref', 'borrow', 'borrow_mut', 'as_mut', 'as_mut_str', 'as_mut_os_str', 'into', 'from', 'to_vec', 'into_boxed_os_str', 'to_bytes',
          'spec_to_os_string', 'as_mut_os_string'):
    RECV[('str', m)] = to_str
for m, f in {
    'len': s_len, 'is_empty': s_is_empty, 'starts_with': s_starts_with, 'strip_prefix': s_strip_prefix, 'ends_with': s_ends_with,
    'strip_suffix': s_strip_suffix, 'split_once': s_split_once, 'rsplit_once': s_rsplit_once, 'find': s_find, 'rfind': s_rfind,
    'contains': s_contains, 'split': s_split, 'split_terminator': s_split_terminator, 'lines': s_lines, 'chars': s_chars, 'char_indices': s_char_indices, 'bytes': s_bytes,
    'iter': s_iter, 'utf8_chunks': s_utf8_chunks, 'make_ascii_lowercase': s_lower_inplace, 'to_ascii_lowercase': s_to_lower,
    'eq_ignore_ascii_case': s_eq_ignore_case, 'is_ascii': s_is_ascii, 'to_str': s_to_str, 'split_at': s_split_at, 'first': s_first, 'last': s_last,
    'split_first': s_split_first, 'trim': s_trim('trim'), 'trim_start': s_trim('trim_start'), 'trim_end': s_trim('trim_end'), 'trim_start_matches': s_trim_pat(True, False), 'trim_end_matches': s_trim_pat(False, True), 'trim_matches': s_trim_pat(True, True),
    'trim_left': s_trim('trim_start'), 'trim_right': s_trim('trim_end'), 'trim_ascii': s_trim('trim'), 'trim_ascii_start': s_trim('trim_start'), 'trim_ascii_end': s_trim('trim_end'),
    'display': s_view, 'split_last': s_split_last, 'to_uppercase': s_upper, 'to_ascii_uppercase': s_upper, 'to_lowercase': s_ulower,

    'replace': s_replace, 'file_name': s_file_name, 'push': o_push, 'push_str': o_push, 'insert_str': o_insert_str, 'insert': o_insert_str, 'truncate': o_truncate,
    'clear': o_clear, 'pop': o_pop, 'extend_from_slice': o_extend, 'is_char_boundary': s_is_char_boundary,
}.items():
    RECV[('str', m)] = mm(f)
RECV[('str', 'to_string_lossy')] = s_lossy
RECV[('str', 'into_string')] = s_into_string


def s_try_from(ip, st, c, a, t):
    ty = tyname(ip, t)
    inner = ip.prog.types[ty['args'][0]] if ty and ty.get('args') else {}
    if inner.get('adt') in ('std::ffi::OsString', 'std::path::PathBuf', 'std::string::String'):
        s = strs(ip, st, a[0])
        return FALL if s is None else OK(('O', st.norm(s)))
    if inner.get('k') == 'ref':
        return s_from_utf8(ip, st, c, a, t)
    return FALL


RECV[('str', 'try_from')] = s_try_from
RECV[('str', 'splitn')] = s_splitn
RECV[('str', 'try_into')] = s_from_utf8
RECV[('str', 'index')] = s_index(True, False)
RECV[('str', 'index_mut')] = s_index(True, False)
RECV[('str', 'get')] = s_index(False, True)
RECV[('str', 'reserve')] = noop
RECV[('str', 'shrink_to_fit')] = noop
RECV[('str', 'write_str')] = f_write_str
RECV[('str', 'write_char')] = f_write_str
RECV[('str', 'write_fmt')] = f_write_fmt
RECV[('fmt', 'write_str')] = f_write_str
RECV[('fmt', 'write_char')] = f_write_str
RECV[('fmt', 'write_fmt')] = f_write_fmt
for m in ('debug_struct', 'debug_tuple', 'debug_list'):
    RECV[('fmt', m)] = lambda ip, st, c, a, t: ('X', 'dbgbuilder', ())
for m, f in {
    'len': q_len, 'is_empty': q_is_empty, 'get': q_get, 'get_mut': q_get, 'index': q_index, 'index_mut': q_index, 'last': q_last, 'last_mut': q_last, 'first': q_first, 'first_mut': q_first,
    'split_last': q_split_last, 'split_first': q_split_first, 'iter': q_iter, 'iter_mut': q_iter, 'push': q_push, 'insert': q_insert, 'pop': q_pop, 'truncate': q_truncate, 'clear': q_clear,
    'binary_search_by_key': q_binary_search_by_key, 'binary_search': q_binary_search, 'binary_search_by': q_binary_search_by, 'contains': q_contains,
    'remove': q_remove, 'sort': q_permute('sort'), 'sort_unstable': q_permute('sort'), 'reverse': q_permute('reverse'),
    'concat': q_concat, 'join': q_join, 'clone': q_clone, 'to_vec': q_clone,
}.items():
    RECV[('seq', m)] = mm(f)


def seq_view(ip, st, c, a, t):
    v = a[0]
    while isinstance(v, tuple) and v[0] == 'R':
        x = ip.read(st, v[1], v[2])
        if isinstance(x, tuple) and x[0] in ('T', 'V'):
            return v
        v = x
    return FALL


for m in ('deref', 'deref_mut', 'as_ref', 'as_mut', 'as_slice', 'as_mut_slice', 'borrow', 'borrow_mut', 'as_array', 'each_ref'):
    RECV[('seq', m)] = seq_view
RECV[('seq', 'into_iter')] = q_into_iter
RECV[('str', 'into_iter')] = q_into_iter
RECV[('seq', 'reserve')] = noop
for m, f in {'next': i_next, 'next_back': i_next_back, 'clone': i_clone, 'size_hint': i_size_hint, 'len': i_len, 'as_str': i_as_str, 'as_slice': i_as_str}.items():
    RECV[('iter', m)] = mm(f)
RECV[('iter', 'into_iter')] = ident
RECV[('iter', 'by_ref')] = ident
for m in ('all', 'any', 'find', 'find_map', 'position', 'fold', 'for_each', 'try_fold', 'rposition'):
    if m != 'rposition':
        RECV[('iter', m)] = i_loop(m)
RECV[('iter', 'count')] = i_count
RECV[('iter', 'last')] = i_last
RECV[('iter', 'nth')] = i_nth
RECV[('iter', 'collect')] = i_collect
RECV[('x', 'valid')] = mm(chunk(0))
RECV[('x', 'invalid')] = mm(chunk(1))
for m in ('saturating_sub', 'saturating_add', 'unchecked_add', 'unchecked_sub', 'wrapping_add', 'wrapping_sub', 'checked_sub', 'checked_add', 'pow', 'is_power_of_two', 'trailing_zeros', 'count_ones', 'abs_diff',
          'strict_add', 'strict_sub'):
    RECV[('int', m)] = num_method(m)
for m, cls in CLASSES.items():
    for k in ('int', 'by', 'ch'):
        RECV[(k, m)] = cls_method(cls)
for m, f in {'len_utf8': ch_len, 'encode_utf8': ch_encode, 'is_digit': ch_is_digit, 'to_ascii_lowercase': ch_lower, 'to_string': ch_to_string, 'eq_ignore_ascii_case': ch_eqic}.items():
    RECV[('ch', m)] = mm(f)
for m in CHAR:
    RECV[('ch', m)] = mm(ch_unicode(m))
RECV[('by', 'to_ascii_lowercase')] = mm(ch_lower)
RECV[('int', 'to_ascii_lowercase')] = mm(ch_lower)
RECV[('int', 'eq_ignore_ascii_case')] = mm(ch_eqic)
RECV[('by', 'eq_ignore_ascii_case')] = mm(ch_eqic)
ANY['precision'] = lambda ip, st, c, a, t: f_precision(ip, st, c, a, t) if recv_kind(ip, st, a[0]) == 'fmt' else FALL
for n, f in {
    'std::cmp::PartialEq::eq': t_eq(False), 'std::cmp::PartialEq::ne': t_eq(True),
    'std::cmp::Ord::cmp': t_cmp('cmp'), 'std::cmp::PartialOrd::partial_cmp': t_cmp('partial_cmp'),
    'std::cmp::PartialOrd::lt': t_cmp('lt'), 'std::cmp::PartialOrd::le': t_cmp('le'), 'std::cmp::PartialOrd::gt': t_cmp('gt'), 'std::cmp::PartialOrd::ge': t_cmp('ge'),
    'std::cmp::Ord::max': t_minmax('max'), 'std::cmp::Ord::min': t_minmax('min'),
    'std::clone::Clone::clone': t_clone,
    'std::fmt::Display::fmt': t_display(False), 'std::fmt::Debug::fmt': t_display(True),
}.items():
    TRAIT[n] = f


def default_any(ip, st, c, a, t):
    if c['def'] != 'std::default::Default::default':
        return FALL
    return t_default(ip, st, c, a, t)


ANY['default'] = default_any


def dbg_any(ip, st, c, a, t):
    if a and recv_kind(ip, st, a[0]) == 'fmt':
        return dbg_finish(ip, st, c, a, t)
    return FALL


for m in ('debug_tuple_field1_finish', 'debug_tuple_field2_finish', 'debug_struct_field1_finish', 'debug_struct_field2_finish', 'debug_struct_field3_finish', 'debug_struct_fields_finish'):
    ANY[m] = dbg_any
