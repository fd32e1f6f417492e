"""Abstract domain: string shapes, linear lengths, path facts.

A string (an argv token, or anything cut out of one) is a tuple of segments:
  bytes            a known literal
  ('o', n)         an unknown part; what is known about it is State.cons[n]
  ('lower', seg)   the ASCII-lowercased form of a segment
  ('dbg', segs) ('disp', ..)   escaped / user-formatted renderings (only in output texts)
Unknown parts are refined when the code under analysis tests them: refinement is a
case split (`Fork`), each case continuing with a more precise abstract state.
"""

ALL = frozenset(range(256))
DIGITS = frozenset(range(48, 58))
UPPER = frozenset(range(65, 91))


class Fork(Exception):
    """The current step needs a fact that is not known: list of alternative refinements."""

    def __init__(self, alts):
        self.alts = alts


class Unsupported(Exception):
    pass


class Infeasible(Exception):
    pass


class Con:
    """Constraint of one unknown part."""
    __slots__ = ('cls', 'first', 'mn', 'mx', 'neq', 'utf8', 'chr', 'tag', 'lack')

    def __init__(self, cls=None, first=None, mn=0, mx=None, neq=frozenset(), utf8=None, chr=False, tag='', lack=frozenset()):
        self.cls, self.first, self.mn, self.mx, self.neq, self.utf8, self.chr, self.tag, self.lack = cls, first, mn, mx, neq, utf8, chr, tag, lack

    def with_(self, **k):
        d = {s: getattr(self, s) for s in Con.__slots__}
        d.update(k)
        return Con(**d)

    def key(self):
        return (self.cls, self.first, self.mn, self.mx, self.neq, self.utf8, self.chr, self.lack)

    def firsts(self):
        f = ALL
        if self.cls is not None:
            f = self.cls
        if self.first is not None:
            f = f & self.first
        return f

    def feasible_lit(self, b):
        if len(b) < self.mn or (self.mx is not None and len(b) > self.mx):
            return False
        if b in self.neq or any(x in b for x in self.lack):
            return False
        if self.chr and not (is_utf8(b) and len(b.decode()) == 1):
            return False
        if b and b[0] not in self.firsts():
            return False
        if self.cls is not None and any(x not in self.cls for x in b):
            return False
        if self.utf8 is not None and is_utf8(b) != self.utf8:
            return False
        return True

    def low_feasible(self, b):
        """Some allowed string is `b` once its ASCII letters are lower-cased."""
        if len(b) < self.mn or self.mx is not None and len(b) > self.mx or b.lower() != b:
            return False
        var = [{x, x - 32} if 97 <= x <= 122 else {x} for x in b]
        if var and var[0].isdisjoint(self.firsts()) or self.cls is not None and any(v.isdisjoint(self.cls) for v in var):
            return False
        if self.chr and not (is_utf8(b) and len(b.decode()) == 1) or self.utf8 is not None and is_utf8(b) != self.utf8:
            return False
        n = 1
        for v in var:
            n *= len(v)
        if 1 << 10 > n <= len(self.neq) and sum(x.lower() == b for x in self.neq) >= n:
            return False
        return not any(x.lower() == x.upper() and x in b for x in self.lack)

    def feasible(self):
        if self.mx is not None and self.mn > self.mx:
            return False
        if self.mn > 0 and not self.firsts():
            return False
        if self.utf8 is False and (self.mx == 0 or self.cls is not None and all(x < 128 for x in self.cls)):
            return False
        return True

    def join(self, o):
        def u(a, b):
            return None if a is None or b is None else a | b
        return Con(u(self.cls, o.cls), u(self.first, o.first) if (self.mn or self.first is not None) and (o.mn or o.first is not None) else None,
                   min(self.mn, o.mn), None if self.mx is None or o.mx is None else max(self.mx, o.mx),
                   self.neq & o.neq, self.utf8 if self.utf8 == o.utf8 else None, self.chr and o.chr, self.tag, self.lack & o.lack)

    def covers(self, o):
        """Every string allowed by `o` is allowed by `self`."""
        j = self.join(o)
        return j.key() == self.key()


def is_utf8(b):
    try:
        b.decode('utf-8')
        return True
    except UnicodeDecodeError:
        return False


def lit_con(b):
    return Con(cls=frozenset(b), first=frozenset(b[:1]) if b else frozenset(), mn=len(b), mx=len(b), utf8=is_utf8(b),
               chr=is_utf8(b) and len(b.decode()) == 1)


# ---- linear terms: int, or ('L', const, ((sym, coef), ...)) ----
def lin(c, terms):
    t = tuple(sorted((k, v) for k, v in terms.items() if v))
    return c if not t else ('L', c, t)


def lparts(x):
    if isinstance(x, tuple):
        return x[1], dict(x[2])
    return int(x), {}


def ladd(a, b, m=1):
    if not isinstance(a, tuple) and not isinstance(b, tuple):
        return int(a) + m * int(b)
    ca, ta = lparts(a)
    cb, tb = lparts(b)
    for k, v in tb.items():
        ta[k] = ta.get(k, 0) + m * v
    return lin(ca + m * cb, ta)


LENMAX = (1 << 63) - 1


class Facts:
    """Path facts; mixed into State."""

    def fresh(self, con=None):
        n = self.nopq
        self.nopq += 1
        self.cons[n] = con or Con()
        return n

    def copy_facts(self, s):
        s.cons = dict(self.cons)
        s.subst = dict(self.subst)
        s.atoms = dict(self.atoms)
        s.bounds = dict(self.bounds)
        s.nopq = self.nopq

    # -- strings --
    def norm(self, segs):
        if not self.subst:
            need = False
        else:
            need = True
        out = []
        for s in segs:
            if type(s) is bytes:
                if out and type(out[-1]) is bytes:
                    out[-1] = out[-1] + s
                elif s:
                    out.append(s)
                continue
            t = s[0]
            if t == 'o':
                r = self.subst.get(s[1]) if need else None
                if r is None:
                    out.append(s)
                    continue
                for x in self.norm(r):
                    if type(x) is bytes and out and type(out[-1]) is bytes:
                        out[-1] = out[-1] + x
                    else:
                        out.append(x)
            elif t == 'lower':
                for x in self.lower(self.norm((s[1],))):
                    if type(x) is bytes and out and type(out[-1]) is bytes:
                        out[-1] = out[-1] + x
                    else:
                        out.append(x)
            elif t == 'dbg' or t == 'lossy' or t == 'fname':
                out.append((t, self.norm(s[1])))
            elif t == 'disp' and isinstance(s[2], tuple):
                out.append(('disp', s[1], self.norm(s[2])))
            else:
                out.append(s)
        return tuple(out)

    def lower(self, segs):
        out = []
        for s in segs:
            if type(s) is bytes:
                out.append(s.lower())
            elif s[0] == 'o':
                c = self.cons[s[1]]
                if c.cls is not None and not (c.cls & UPPER):
                    out.append(s)
                else:
                    out.append(('lower', s))
            elif s[0] == 'lower':
                out.append(s)
            else:
                raise Unsupported('lower of %r' % (s,))
        return tuple(out)

    def slen(self, segs):
        c, t = 0, {}
        for s in self.norm(segs):
            if type(s) is bytes:
                c += len(s)
            else:
                if s[0] == 'lower':
                    s = s[1]
                if s[0] == 'o':
                    con = self.cons[s[1]]
                    if con.mx is not None and con.mx == con.mn:
                        c += con.mn
                        continue
                k = ('len', s)
                t[k] = t.get(k, 0) + 1
        return lin(c, t)

    def lnorm(self, x):
        """Re-express a length term after refinement."""
        if not isinstance(x, tuple):
            return x
        c, t = x[1], x[2]
        r = c
        for (k, v) in t:
            if k[0] == 'len':
                l = self.slen((k[1],))
            else:
                l = ('L', 0, ((k, 1),))
            lc, lt = lparts(l)
            r = ladd(r, lin(lc * v, {a: b * v for a, b in lt.items()}))
        return r

    def sym_bounds(self, k):
        if k[0] == 'len':
            s = k[1]
            if s[0] == 'o':
                con = self.cons[s[1]]
                return con.mn, (LENMAX if con.mx is None else con.mx)
            return 0, LENMAX
        return self.bounds.get(k, (0, (1 << 64) - 1))

    def lbounds(self, x):
        x = self.lnorm(x)
        c, t = lparts(x)
        lo = hi = c
        for k, v in t.items():
            a, b = self.sym_bounds(k)
            if v > 0:
                lo += a * v
                hi += b * v
            else:
                lo += b * v
                hi += a * v
        return lo, hi

    def le(self, a, b):
        """Decide a <= b."""
        d = self.lnorm(ladd(a, b, -1))
        if not isinstance(d, tuple):
            return d <= 0
        lo, hi = self.lbounds(d)
        if hi <= 0:
            return True
        if lo > 0:
            return False
        t = d[2]
        if len(t) == 1 and abs(t[0][1]) == 1:
            (k, v) = t[0]
            c = d[1]
            # v*k + c <= 0
            if v == 1:
                yes, no = ('bound', k, None, -c), ('bound', k, -c + 1, None)
            else:
                yes, no = ('bound', k, c, None), ('bound', k, None, c - 1)
            raise Fork([[yes], [no]])
        key = ('le', d)
        if key in self.atoms:
            return self.atoms[key]
        raise Fork([[('atom', key, True)], [('atom', key, False)]])

    def eqnum(self, a, b):
        d = self.lnorm(ladd(a, b, -1))
        if not isinstance(d, tuple):
            return d == 0
        lo, hi = self.lbounds(d)
        if lo > 0 or hi < 0:
            return False
        t = d[2]
        if len(t) == 1 and abs(t[0][1]) == 1:
            k, v = t[0]
            val = -d[1] * v
            klo, khi = self.sym_bounds(k)
            alts = [[('bound', k, val, val)]]
            if val - 1 >= klo:
                alts.append([('bound', k, None, val - 1)])
            if val + 1 <= khi:
                alts.append([('bound', k, val + 1, None)])
            raise Fork(alts)
        key = ('eqn', d)
        if key in self.atoms:
            return self.atoms[key]
        raise Fork([[('atom', key, True)], [('atom', key, False)]])

    def apply(self, op):
        """Apply one refinement. Raises Infeasible."""
        k = op[0]
        if k == 'sub':
            _, o, segs = op
            if o in self.subst:
                raise Infeasible()
            segs = tuple(s for s in segs if s != b'')
            if all(type(s) is bytes for s in segs) and o in self.cons and not self.cons[o].feasible_lit(b''.join(segs)):
                raise Infeasible()
            self.subst[o] = segs
            self._renorm_atoms()
        elif k == 'con':
            _, o, con = op
            if not con.feasible():
                raise Infeasible()
            if con.mx == 0:
                self.cons[o] = con
                self.subst[o] = ()
                self._renorm_atoms()
            else:
                self.cons[o] = con
                if any(a[0] == 'eqlow' and ('lower', ('o', o)) in a[1] or a[0] == 'allin' and ('o', o) in a[1] for a in self.atoms):
                    self._renorm_atoms()
        elif k == 'new':
            _, o, con = op
            if not con.feasible():
                raise Infeasible()
            assert o == self.nopq, (o, self.nopq)
            self.nopq += 1
            self.cons[o] = con
            if con.mx == 0:
                self.subst[o] = ()
        elif k == 'atom':
            self.atoms[op[1]] = op[2]
        elif k == 'bound':
            _, sym, lo, hi = op
            a, b = self.sym_bounds(sym)
            lo = a if lo is None else max(lo, a)
            hi = b if hi is None else min(hi, b)
            if lo > hi:
                raise Infeasible()
            if sym[0] == 'len':
                if sym[1][0] != 'o':
                    raise Unsupported('len bound')
                con = self.cons[sym[1][1]].with_(mn=lo, mx=None if hi == LENMAX else hi)
                self.apply(('con', sym[1][1], con))
            else:
                self.bounds[sym] = (lo, hi)
        else:
            raise Unsupported('refine ' + k)

    def _renorm_atoms(self):
        new = {}
        for k, v in self.atoms.items():
            nk = self._natom(k)
            if nk[0] in ('eqlow', 'allin'):
                t = self._low_is(nk[1], nk[2][1]) if nk[0] == 'eqlow' else self._all_in(nk[1], nk[2][1])
                if t is not None:
                    if t != v:
                        raise Infeasible()
                    continue
            if nk[0] == 'ends':     # only ever recorded as not ending so
                last, lit = nk[1][-1:], nk[2][1]
                if last and type(last[0]) is bytes and len(last[0]) >= len(lit):
                    if last[0].endswith(lit):
                        raise Infeasible()
                    continue
                if not last:
                    continue
            if nk in new and new[nk] != v:
                raise Infeasible()
            new[nk] = v
        self.atoms = new

    def _low_is(self, segs, lit):
        """Whether a string with lower-cased parts is `lit`: True, False or None (not known)."""
        ends, sure = {0}, True
        for s in segs:
            nxt = set()
            if type(s) is not bytes:
                low = s[0] == 'lower'
                b = s[1] if low else s
                if b[0] != 'o':
                    return None
                c = self.cons[b[1]]
                sure = sure and c.mn == c.mx
            for i in ends:
                if type(s) is bytes:
                    if lit[i:i + len(s)] == s:
                        nxt.add(i + len(s))
                    continue
                hi = len(lit) - i if c.mx is None else min(len(lit) - i, c.mx)
                for n in range(c.mn, hi + 1):
                    part = lit[i:i + n]
                    if c.low_feasible(part) if low else c.feasible_lit(part):
                        nxt.add(i + n)
            if not nxt:
                return False
            if sure and type(s) is not bytes:
                i, = ends
                part = lit[i:i + c.mn]
                ok = {x for y in part for x in ({y, y - 32} if low and 97 <= y <= 122 else {y})} if len(set(part)) == 1 else set()
                sure = not part or c.firsts() <= ok and (len(part) == 1 or c.cls is not None and c.cls <= ok)
            ends = nxt
        if len(lit) not in ends:
            return False
        return True if sure else None

    def _all_in(self, segs, cls):
        t = True
        for s in segs:
            if type(s) is bytes:
                if any(x not in cls for x in s):
                    return False
            elif s[0] == 'o' and self.cons[s[1]].cls is not None and self.cons[s[1]].cls <= cls:
                pass
            else:
                t = None
        return t

    def _natom(self, k):
        if k[0] in ('le', 'eqn'):
            return (k[0], self.lnorm(k[1]))
        return (k[0],) + tuple(self.norm(x) if isinstance(x, tuple) and not (x and x[0] == 'raw') else x for x in k[1:])

    def atom(self, name, *args):
        """A two-valued unknown of the path, keyed by name and (string) arguments."""
        key = self._natom((name,) + args)
        if key in self.atoms:
            return self.atoms[key]
        raise Fork([[('atom', key, True)], [('atom', key, False)]])

    # -- string predicates --
    def is_empty(self, segs):
        segs = self.norm(segs)
        if not segs:
            return True
        for s in segs:
            if type(s) is bytes:
                return False
            b = s[1] if s[0] == 'lower' else s
            if b[0] == 'o':
                if self.cons[b[1]].mn > 0:
                    return False
            else:
                return False
        b = segs[0][1] if segs[0][0] == 'lower' else segs[0]
        self._fork_empty(b[1])

    def _fork_empty(self, o):
        c = self.cons[o]
        alts = []
        if c.feasible_lit(b''):
            alts.append([('sub', o, ())])
        if c.with_(mn=1).feasible():
            alts.append([('con', o, c.with_(mn=1))])
        raise Fork(alts)

    def first_is(self, segs, byte):
        """First byte of the string is `byte` (False when empty)."""
        segs = self.norm(segs)
        if not segs:
            return False
        s = segs[0]
        if type(s) is bytes:
            return s[0] == byte
        low = s[0] == 'lower'
        b = s[1] if low else s
        if b[0] != 'o':
            raise Unsupported('first byte of %r' % (s,))
        o = b[1]
        c = self.cons[o]
        if c.mn == 0:
            self._fork_empty(o)
        fs = c.firsts()
        want = {byte}
        if low:
            if byte in UPPER:
                return False
            if 97 <= byte <= 122:
                want = {byte, byte - 32}
        if not (fs & want):
            return False
        if fs <= want and (len(fs) == 1 or low):
            if len(fs) == 1:
                self._split_first(o, next(iter(fs)), only=True)
            return True
        if low and len(fs & want) > 1:
            # keep the case ambiguity
            raise Fork([[('con', o, c.with_(first=fs & frozenset(want)))], [('con', o, c.with_(first=fs - want))]])
        w = next(iter(fs & want))
        alts = [self._split_alt(o, w)]
        rest = fs - want
        if rest:
            alts.append([('con', o, c.with_(first=rest))])
        raise Fork(alts)

    def _split_alt(self, o, byte):
        c = self.cons[o]
        bb = bytes([byte])
        n = self.nopq
        if c.chr and byte < 128:
            return [('sub', o, (bb,))]
        utf8 = c.utf8 if byte < 128 else None
        neq = frozenset(x[1:] for x in c.neq if x[:1] == bb)
        mn = max(0, c.mn - 1)
        if b'' in neq:
            mn = max(mn, 1)
        nc = Con(cls=c.cls, mn=mn, mx=None if c.mx is None else c.mx - 1, neq=neq - {b''}, utf8=utf8, tag=c.tag, lack=c.lack)
        return [('new', n, nc), ('sub', o, (bb, ('o', n)))]

    def _split_first(self, o, byte, only=False):
        raise Fork([self._split_alt(o, byte)])

    def starts_with(self, segs, lit):
        for i, byte in enumerate(lit):
            if not self.first_is(segs, byte):
                return False
            segs = self.drop1(segs)
        return True

    def ends_one(self, s, lit):
        """Whether one unknown part ends with a literal."""
        o, c = s[1], self.cons[s[1]]
        if c.mx is not None and c.mx < len(lit) or any(x in lit for x in c.lack) or c.cls is not None and any(x not in c.cls for x in lit):
            return False
        if c.mn == 0:
            self._fork_empty(o)
        if self.atoms.get(('ends', (s,), ('raw', lit))) is False:
            return False
        n = self.nopq
        alts = []
        if c.mn <= len(lit) and lit[0] in c.firsts() and lit not in c.neq:
            alts.append([('sub', o, (lit,))])
        pre = Con(cls=c.cls, first=c.first, mn=max(1, c.mn - len(lit)), mx=None if c.mx is None else c.mx - len(lit), tag=c.tag, lack=c.lack,
                  neq=frozenset(x[:-len(lit)] for x in c.neq if x.endswith(lit)), utf8=c.utf8 if is_utf8(lit) else None)
        if pre.feasible():
            alts.append([('new', n, pre), ('sub', o, (('o', n), lit))])
        alts.append([('atom', ('ends', (s,), ('raw', lit)), False)])
        raise Fork(alts)

    def insertion(self, v):
        """The place where a string not in a sorted table would be put."""
        if isinstance(v, tuple) and v[0] == 'X' and v[1] == 'insertion-point':
            for i, k in enumerate(v[3:]):
                if self.cmp(v[2], k) < 0:
                    return i
            return len(v) - 3
        return v

    def after_prefix(self, segs, pre):
        """What follows the prefix `pre` (itself not known), or None."""
        while True:
            segs, pre = self.norm(segs), self.norm(pre)
            if self.is_empty(pre):
                return segs
            if self.is_empty(segs):
                return None
            if segs[0] == pre[0]:
                segs, pre = segs[1:], pre[1:]
            elif type(segs[0]) is bytes:
                if not self.first_is(pre, segs[0][0]):
                    return None
                segs, pre = self.drop1(segs), self.drop1(pre)
            elif type(pre[0]) is bytes:
                if not self.first_is(segs, pre[0][0]):
                    return None
                segs, pre = self.drop1(segs), self.drop1(pre)
            else:
                raise Unsupported('prefix of unknown text')

    def drop1(self, segs):
        segs = self.norm(segs)
        if type(segs[0]) is not bytes and segs[0][0] == 'lower' and segs[0][1][0] == 'o':
            o = segs[0][1][1]
            c = self.cons[o]
            fs = c.firsts()
            assert c.mn and all(x < 128 for x in fs), segs
            if c.mx == 1:
                return segs[1:]
            n = self.nopq       # one byte of unknown case and the rest
            neq = frozenset([b''] if any(bytes([x]) in c.neq for x in fs) else []) if len(fs) == 1 else frozenset()
            nc = Con(cls=c.cls, mn=max(0, c.mn - 1), mx=None if c.mx is None else c.mx - 1, neq=neq, utf8=c.utf8, tag=c.tag, lack=c.lack)
            raise Fork([[('new', n, Con(cls=fs, first=fs, mn=1, mx=1, utf8=True, tag=c.tag)), ('new', n + 1, nc), ('sub', o, (('o', n), ('o', n + 1)))]])
        assert type(segs[0]) is bytes, segs
        h = segs[0][1:]
        return ((h,) if h else ()) + segs[1:]

    def strip_prefix(self, segs, lit):
        for byte in lit:
            if not self.first_is(segs, byte):
                return None
            segs = self.drop1(segs)
        return self.norm(segs)

    def eq(self, a, b):
        a, b = self.norm(a), self.norm(b)
        if a == b:
            return True
        # strip common prefixes / suffixes
        a, b = list(a), list(b)
        while a and b:
            x, y = a[0], b[0]
            if type(x) is bytes and type(y) is bytes:
                n = min(len(x), len(y))
                if x[:n] != y[:n]:
                    return False
                a[0], b[0] = x[n:], y[n:]
                if not a[0]:
                    a.pop(0)
                if not b[0]:
                    b.pop(0)
            elif x == y:
                a.pop(0)
                b.pop(0)
            else:
                break
        while a and b:
            x, y = a[-1], b[-1]
            if type(x) is bytes and type(y) is bytes:
                n = min(len(x), len(y))
                if x[-n:] != y[-n:]:
                    return False
                a[-1], b[-1] = x[:-n], y[:-n]
                if not a[-1]:
                    a.pop()
                if not b[-1]:
                    b.pop()
            elif x == y:
                a.pop()
                b.pop()
            else:
                break
        if not a and not b:
            return True
        if not a:
            return self.is_empty(tuple(b))
        if not b:
            return self.is_empty(tuple(a))
        if all(type(x) is bytes for x in b):
            return self._eq_lit(tuple(a), b''.join(b))
        if all(type(x) is bytes for x in a):
            return self._eq_lit(tuple(b), b''.join(a))
        if len(a) == 1 and len(b) == 1:
            x, y = sorted((a[0], b[0]), key=repr)
            return self.atom('eq', (x,), (y,))
        return self.atom('eq', *sorted((tuple(a), tuple(b)), key=repr))

    def never_utf8(self, segs):
        """Known to be invalid UTF-8: a valid part followed by an invalid sequence."""
        for s in segs:
            if type(s) is bytes:
                if not is_utf8(s):
                    return False
            elif s[0] == 'o':
                c = self.cons[s[1]]
                if c.tag == 'inv':
                    return True
                if not c.utf8:
                    return False
            else:
                return False
        return False

    def _eq_lit(self, segs, lit):
        if is_utf8(lit) and self.never_utf8(segs):
            return False
        if len(segs) == 1:
            s = segs[0]
            if s[0] == 'o':
                o = s[1]
                c = self.cons[o]
                if not c.feasible_lit(lit):
                    return False
                alts = [[('sub', o, (lit,))]]
                n = c.with_(neq=c.neq | {lit})
                if len(lit) == c.mn == c.mx == 1 and c.firsts() == {lit[0]}:
                    pass
                else:
                    if len(lit) == 1 and c.mx == 1:
                        n = n.with_(first=c.firsts() - {lit[0]})
                    alts.append([('con', o, n)])
                if c.chr and c.mx is not None and c.mx < 1:
                    alts = alts[1:]
                raise Fork(alts)
            if s[0] == 'lower':
                if lit.lower() != lit:
                    return False
                t = self._low_is((s,), lit)
                if t is not None:
                    return t
                # distinct literals exclude each other
                for k, v in self.atoms.items():
                    if k[0] == 'eqlow' and k[1] == (s,) and v:
                        return k[2] == ('raw', lit)
                key = self._natom(('eqlow', (s,), ('raw', lit)))
                if key in self.atoms:
                    return self.atoms[key]
                o = s[1][1]
                c = self.cons[o]
                cls = frozenset(x for y in lit for x in ({y, y - 32} if 97 <= y <= 122 else {y}))
                n = c.with_(mn=len(lit), mx=len(lit), cls=cls if c.cls is None else c.cls & cls)
                raise Fork([[('con', o, n), ('atom', key, True)], [('atom', key, False)]])
        if not lit:
            return self.is_empty(segs)
        if not self.first_is(segs, lit[0]):
            return False
        return self.eq(self.drop1(segs), (lit[1:],))

    def cmp(self, a, b):
        """Byte-wise ordering: -1, 0 or 1."""
        while True:
            a, b = self.norm(a), self.norm(b)
            if a == b:
                return 0
            ea, eb = self.is_empty(a), self.is_empty(b)
            if ea or eb:
                return 0 if ea and eb else -1 if ea else 1
            if type(a[0]) is bytes and type(b[0]) is bytes:
                if a[0][0] != b[0][0]:
                    return -1 if a[0][0] < b[0][0] else 1
                a, b = self.drop1(a), self.drop1(b)
                continue
            if type(a[0]) is bytes:
                return -self.cmp(b, a)
            if type(b[0]) is not bytes:
                if a[0] == b[0]:
                    a, b = a[1:], b[1:]
                    continue
                if self.atom('eq', *sorted((a, b), key=repr)):
                    return 0
                return -1 if self.atom('less', a, b) else 1
            x = b[0][0]
            if a[0][0] != 'o':
                raise Unsupported('ordering of %r' % (a[0],))
            o = a[0][1]
            c = self.cons[o]
            fs = c.firsts()
            if c.chr and x >= 128 and x in fs:
                try:
                    ch = b[0].decode()[0].encode()
                except UnicodeDecodeError:
                    raise Unsupported('ordering of characters')
                if c.feasible_lit(ch):
                    raise Fork([[('sub', o, (ch,))], [('con', o, c.with_(neq=c.neq | {ch}))]])
                if self.atom('less', (a[0],), (ch,)):
                    return -1
                return 1
            lo, hi = frozenset(y for y in fs if y < x), frozenset(y for y in fs if y > x)
            if not hi and x not in fs:
                return -1
            if not lo and x not in fs:
                return 1
            alts = []
            if lo:
                alts.append([('con', o, c.with_(first=lo))])
            if x in fs:
                alts.append(self._split_alt(o, x))
            if hi:
                alts.append([('con', o, c.with_(first=hi))])
            raise Fork(alts)

    def find_split(self, segs, byte):
        """(before, after) of the first occurrence of an ASCII byte, or None."""
        segs = self.norm(segs)
        pre = []
        for i, s in enumerate(segs):
            if type(s) is bytes:
                p = s.find(byte)
                if p >= 0:
                    return tuple(pre) + ((s[:p],) if p else ()), ((s[p + 1:],) if p + 1 < len(s) else ()) + segs[i + 1:]
                pre.append(s)
                continue
            if s[0] == 'lower':
                o = s[1][1]
            elif s[0] == 'o':
                o = s[1]
            else:
                raise Unsupported('find in %r' % (s,))
            c = self.cons[o]
            if c.cls is not None and byte not in c.cls or c.chr and c.firsts().isdisjoint({byte}):
                pre.append(s)
                continue
            if c.mn == c.mx == 1:
                if self.first_is((('o', o),), byte):
                    raise AssertionError
                pre.append(s)
                continue
            alts = []
            bb = bytes([byte])
            if c.chr:
                alts.append([('sub', o, (bb,))])
                alts.append([('con', o, c.with_(first=c.firsts() - {byte}))])
                raise Fork(alts)
            n = self.nopq
            cls = (c.cls or ALL) - {byte}
            u = c.utf8 if c.utf8 else None
            fa = None if c.first is None else c.first - {byte}
            can_empty_a = c.first is None or byte in c.first
            ca = Con(cls=cls, first=fa, mn=0 if can_empty_a else 1, utf8=u, tag=c.tag, lack=c.lack)
            cb = Con(cls=c.cls, utf8=u, tag=c.tag, lack=c.lack)
            alts.append([('new', n, ca), ('new', n + 1, cb), ('sub', o, (('o', n), bb, ('o', n + 1)))])
            alts.append([('con', o, c.with_(cls=cls))])
            raise Fork(alts)
        return None

    def find_char(self, segs, lit):
        """(before, after) of the first occurrence of a character of several bytes, or None."""
        segs = self.norm(segs)
        for i in range(len(segs) - 1):      # an occurrence across two parts cannot be represented
            a, b = segs[i], segs[i + 1]
            if all(self._cut(a, b, lit, k) for k in range(1, len(lit))):
                continue
            raise Unsupported('search for %r across parts' % lit)
        pre = []
        for i, s in enumerate(segs):
            if type(s) is bytes:
                p = s.find(lit)
                if p >= 0:
                    return tuple(pre) + ((s[:p],) if p else ()), ((s[p + len(lit):],) if p + len(lit) < len(s) else ()) + segs[i + 1:]
                pre.append(s)
                continue
            if s[0] not in ('o', 'lower'):
                raise Unsupported('search for %r in %r' % (lit, s))
            o = s[1] if s[0] == 'o' else s[1][1]
            c = self.cons[o]
            if lit in c.lack or c.cls is not None and not c.cls.issuperset(lit) or c.mx is not None and c.mx < len(lit):
                pre.append(s)
                continue
            if c.chr:
                if self.eq((('o', o),), (lit,)):
                    return tuple(pre), segs[i + 1:]
                pre.append(s)
                continue
            n = self.nopq
            u = c.utf8 if c.utf8 else None
            ca = Con(cls=c.cls, first=c.first, mn=0 if c.first is None or lit[0] in c.first else 1, utf8=u, tag=c.tag, lack=c.lack | {lit})
            cb = Con(cls=c.cls, utf8=u, tag=c.tag, lack=c.lack)
            raise Fork([[('new', n, ca), ('new', n + 1, cb), ('sub', o, (('o', n), lit, ('o', n + 1)))], [('con', o, c.with_(lack=c.lack | {lit}))]])
        return None

    def _cut(self, a, b, lit, k):
        """No occurrence of `lit` has its first `k` bytes at the end of `a` and the others at the start of `b`."""
        a, b = (s[1] if type(s) is not bytes and s[0] == 'lower' else s for s in (a, b))

        def whole(s):
            return s[0] == 'o' and self.cons[s[1]].utf8 is True
        if type(a) is bytes:
            if not a.endswith(lit[:k]):
                return True
        elif whole(a) or a[0] == 'o' and self.cons[a[1]].tag == 'inv':     # decoding ended before, and stopped in, a cut character
            return True
        if type(b) is bytes:
            return not (b[:len(lit) - k] == lit[k:k + len(b)])
        return whole(b) or b[0] == 'o' and lit[k] not in self.cons[b[1]].firsts()

    def rfind_split(self, segs, byte):
        segs = self.norm(segs)
        post = []
        for i in range(len(segs) - 1, -1, -1):
            s = segs[i]
            if type(s) is bytes:
                p = s.rfind(byte)
                if p >= 0:
                    return segs[:i] + ((s[:p],) if p else ()), ((s[p + 1:],) if p + 1 < len(s) else ()) + tuple(reversed(post))
                post.append(s)
                continue
            if s[0] != 'o':
                raise Unsupported('rfind in %r' % (s,))
            o = s[1]
            c = self.cons[o]
            if c.cls is not None and byte not in c.cls or c.chr and c.firsts().isdisjoint({byte}):
                post.append(s)
                continue
            if c.chr or c.mn == c.mx == 1:
                self.first_is((s,), byte)
                post.append(s)
                continue
            n = self.nopq
            bb = bytes([byte])
            cls = (c.cls or ALL) - {byte}
            u = c.utf8 if c.utf8 else None
            ca = Con(cls=c.cls, first=c.first, mn=0 if c.first is None or byte in c.first else 1, utf8=u, tag=c.tag, lack=c.lack)
            cb = Con(cls=cls, utf8=u, tag=c.tag, lack=c.lack)
            raise Fork([[('new', n, ca), ('new', n + 1, cb), ('sub', o, (('o', n), bb, ('o', n + 1)))], [('con', o, c.with_(cls=cls))]])
        return None

    def utf8(self, segs):
        segs = self.norm(segs)
        for s in segs:
            if type(s) is bytes:
                if not is_utf8(s):
                    return False
            elif s[0] in ('o', 'lower'):
                b = s[1] if s[0] == 'lower' else s
                if self.cons[b[1]].utf8 is False:
                    return False
        for s in segs:
            if type(s) is bytes:
                continue
            if s[0] in ('o', 'lower'):
                b = s[1] if s[0] == 'lower' else s
                c = self.cons[b[1]]
                if c.utf8 is None:
                    alts = [[('con', b[1], c.with_(utf8=True))]]
                    if c.cls is None or any(x >= 128 for x in c.cls):
                        alts.append([('con', b[1], c.with_(utf8=False, mn=max(1, c.mn)))])
                    raise Fork(alts)
        return True

    def all_bytes(self, segs, cls):
        """All bytes are in `cls`."""
        segs = self.norm(segs)
        und = None
        for s in segs:
            if type(s) is bytes:
                if any(x not in cls for x in s):
                    return False
                continue
            if s[0] != 'o':
                raise Unsupported('all over %r' % (s,))
            c = self.cons[s[1]]
            if c.cls is not None and c.cls <= cls:
                continue
            if c.mn > 0 and not (c.firsts() & cls):
                return False
            if c.mn > 0 and c.cls is not None and not (c.cls & cls):
                return False
            if any(k[0] == 'allin' and v is False and k[1] == (s,) and cls <= k[2][1] for k, v in self.atoms.items()):
                return False
            if und is None:
                und = s
        if und is None:
            return True
        c = self.cons[und[1]]
        raise Fork([[('con', und[1], c.with_(cls=(c.cls or ALL) & cls))], [('atom', ('allin', (und,), ('raw', cls)), False)]])

    def pop_char(self, segs):
        """None if empty, else (char segs, rest). The string is known to be UTF-8."""
        segs = self.norm(segs)
        if self.is_empty(segs):
            return None
        segs = self.norm(segs)
        s = segs[0]
        if type(s) is bytes:
            n = 1
            while n < len(s) and (s[n] & 0xC0) == 0x80:
                n += 1
            return (s[:n],), ((s[n:],) if n < len(s) else ()) + segs[1:]
        if s[0] == 'lower':
            r = self.pop_char((s[1],) + segs[1:])
            raise Unsupported('pop_char lower')
        if s[0] != 'o':
            raise Unsupported('pop_char %r' % (s,))
        c = self.cons[s[1]]
        if c.chr:
            return (s,), segs[1:]
        if c.mn == 0:
            self._fork_empty(s[1])
        n = self.nopq
        cc = Con(cls=c.cls, first=c.first, mn=1, mx=4, utf8=True, chr=True, tag=c.tag, lack=c.lack)
        cr = Con(cls=c.cls, utf8=True if c.utf8 else None, tag=c.tag, lack=c.lack)
        raise Fork([[('new', n, cc), ('new', n + 1, cr), ('sub', s[1], (('o', n), ('o', n + 1)))]])

    def pop_byte(self, segs):
        segs = self.norm(segs)
        if self.is_empty(segs):
            return None
        segs = self.norm(segs)
        s = segs[0]
        if type(s) is bytes:
            return (s[:1],), ((s[1:],) if len(s) > 1 else ()) + segs[1:]
        if s[0] != 'o':
            raise Unsupported('pop_byte')
        c = self.cons[s[1]]
        if c.mn == c.mx == 1:
            return (s,), segs[1:]
        if c.mn == 0:
            self._fork_empty(s[1])
        n = self.nopq
        cc = Con(cls=c.cls, first=c.first, mn=1, mx=1, tag=c.tag)
        cr = Con(cls=c.cls, mx=None if c.mx is None else c.mx - 1, mn=max(0, c.mn - 1), tag=c.tag)
        raise Fork([[('new', n, cc), ('new', n + 1, cr), ('sub', s[1], (('o', n), ('o', n + 1)))]])

    def utf8_split(self, segs):
        """Split a non-empty string into (valid prefix, first invalid sequence, rest)."""
        segs = self.norm(segs)
        v = []
        for i, s in enumerate(segs):
            if type(s) is bytes:
                if is_utf8(s):
                    v.append(s)
                    continue
                for k in range(len(s), -1, -1):
                    if is_utf8(s[:k]):
                        break
                return tuple(v) + ((s[:k],) if k else ()), (s[k:k + 1],), ((s[k + 1:],) if k + 1 < len(s) else ()) + segs[i + 1:]
            if s[0] != 'o':
                raise Unsupported('utf8_split')
            c = self.cons[s[1]]
            if c.utf8:
                v.append(s)
                continue
            if c.tag == 'inv':
                return tuple(v), (s,), segs[i + 1:]
            if c.utf8 is None:
                alts = [[('con', s[1], c.with_(utf8=True))]]
                if c.cls is None or any(x >= 128 for x in c.cls):
                    alts.append([('con', s[1], c.with_(utf8=False, mn=max(1, c.mn)))])
                raise Fork(alts)
            n = self.nopq
            # invalid: valid part + invalid sequence + anything
            alts = []
            f = c.firsts()
            for empty in (True, False):
                if empty and not any(x >= 128 for x in f):
                    continue
                a = []
                k = n
                parts = []
                if not empty:
                    a.append(('new', k, Con(cls=c.cls, first=c.first, mn=1, utf8=True, lack=c.lack)))
                    parts.append(('o', k))
                    k += 1
                a.append(('new', k, Con(cls=c.cls, first=frozenset(x for x in (f if empty else ALL) if x >= 128), mn=1, mx=3, utf8=False, tag='inv', lack=c.lack)))
                parts.append(('o', k))
                k += 1
                a.append(('new', k, Con(cls=c.cls, lack=c.lack)))
                parts.append(('o', k))
                a.append(('sub', s[1], tuple(parts)))
                alts.append(a)
            raise Fork(alts)
        return tuple(v), (), ()

    def split_at(self, segs, off):
        """Split at a byte offset (linear term)."""
        segs = self.norm(segs)
        acc = 0
        off = self.lnorm(off)
        for i in range(len(segs) + 1):
            d = self.lnorm(ladd(off, acc, -1))
            if d == 0:
                return segs[:i], segs[i:]
            if i == len(segs):
                break
            s = segs[i]
            if type(s) is bytes and not isinstance(d, tuple) and 0 < d < len(s):
                return segs[:i] + (s[:d],), (s[d:],) + segs[i + 1:]
            if type(s) is not bytes and not isinstance(d, tuple) and d > 0 and s[0] == 'o':
                c = self.cons[s[1]]
                if d == 1 and c.mn >= 1:
                    r = self.pop_byte((s,))
                    # already a single byte
                    acc = ladd(acc, self.slen((s,)))
                    continue
                if c.mn == 0:
                    self._fork_empty(s[1])
            acc = ladd(acc, self.slen((s,)))
        return None
