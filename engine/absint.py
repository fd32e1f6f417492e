"""Abstract interpreter over monomorphic MIR (dumped by /verif/driver).

Whole-program, interprocedural, trace-partitioned: control is followed precisely, data is
abstracted by the shapes of dom.py, loops are closed by generalising the states met at a loop
head until they are inductive.
"""
import json, os, sys, time
from dom import *

sys.setrecursionlimit(10000)

UNIT = ('A', None, 0, ())


def A(v, *f, t=None):
    return ('A', t, v, tuple(f))


def NONE():
    return ('A', None, 0, ())


def SOME(x):
    return ('A', None, 1, (x,))


def OK(x=UNIT):
    return ('A', None, 0, (x,))


def ERR(x):
    return ('A', None, 1, (x,))


def TUP(*x):
    return ('A', None, 0, tuple(x))


STRING_ADTS = ('std::string::String', 'std::ffi::OsString', 'std::path::PathBuf', 'std::sys::os_str::bytes::Buf', 'std::sys_common::wtf8::Wtf8Buf')


AFTER_VIOLATION = 12


class Fn:
    __slots__ = ('key', 'name', 'deff', 'crate', 'shim', 'nargs', 'spread', 'blocks', 'locals', 'heads', 'bodies', 'live', 'span', 'vars')


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.raw = d
        self.types = d['types']
        self.fnj = {f['key']: f for f in d['fns']}
        self.names = {f['key']: (f['def'], f['name'], f['crate']) for f in d['fns'] + d['opaque']}
        self.fns = {}
        self.vt = {}
        for v in d['vtables']:
            for m in v['m']:
                self.vt[(v['ty'], m[0])] = m[1]
                self.vt[(self.types[v['ty']]['n'], m[0])] = m[1]
        self.cmem = []
        self.ccache = {}
        self.byname = {}
        for f in d['fns']:
            self.byname.setdefault(f['name'], f['key'])
        self.used = set()

    def fn(self, key):
        f = self.fns.get(key)
        if f is not None:
            return f
        j = self.fnj.get(key)
        if j is None:
            return None
        f = Fn()
        f.key, f.name, f.deff, f.crate, f.shim, f.nargs, f.spread, f.blocks, f.locals = key, j['name'], j['def'], j['crate'], j['shim'], j['nargs'], j['spread'], j['blocks'], j['locals']
        f.span, f.vars = j['span'], j.get('vars', [])
        self.analyse(f)
        self.fns[key] = f
        return f

    def analyse(self, f):
        n = len(f.blocks)
        succ = [self.succs(b['t']['k']) for b in f.blocks]
        # retreating edges
        color = [0] * n
        heads = {}
        stack = [(0, iter(succ[0]))]
        color[0] = 1
        while stack:
            u, it = stack[-1]
            for v in it:
                if color[v] == 1:
                    heads.setdefault(v, set()).add(u)
                elif color[v] == 0:
                    color[v] = 1
                    stack.append((v, iter(succ[v])))
                    break
            else:
                color[u] = 2
                stack.pop()
        pred = [[] for _ in range(n)]
        for u in range(n):
            for v in succ[u]:
                pred[v].append(u)
        f.bodies = {}
        for h, srcs in heads.items():
            body = {h}
            w = list(srcs)
            while w:
                x = w.pop()
                if x in body:
                    continue
                body.add(x)
                w.extend(pred[x])
            f.bodies[h] = body
        f.heads = set(heads)
        f.live = None
        if heads:
            use = []
            for b in f.blocks:
                # locals used before being fully overwritten in the block
                gen, kill = set(), set()
                for s in b['s']:
                    if s[0] == '=':
                        self._uses(s[2], gen, kill)
                        pl = s[1]
                        if len(pl) == 1:
                            kill.add(pl[0])
                        else:
                            self._place_uses(pl, gen, kill)
                    elif s[0] == 'dead':
                        kill.add(s[1])
                    elif s[0] == 'sd':
                        self._place_uses(s[1], gen, kill)
                t = b['t']['k']
                if t[0] == 'call':
                    for a in t[2]:
                        self._uses(a, gen, kill)
                    if t[1].get('op'):
                        self._uses(t[1]['op'], gen, kill)
                    if len(t[3]) > 1:
                        self._place_uses(t[3], gen, kill)
                    else:
                        kill.add(t[3][0])
                elif t[0] == 'switch' or t[0] == 'assert':
                    self._uses(t[1], gen, kill)
                elif t[0] == 'ret':
                    if 0 not in kill:
                        gen.add(0)
                use.append((gen, kill))
            live = [set() for _ in range(n)]
            ch = True
            while ch:
                ch = False
                for u in range(n - 1, -1, -1):
                    o = set()
                    for v in succ[u]:
                        o |= live[v]
                    g, k = use[u]
                    nl = g | (o - k)
                    if nl != live[u]:
                        live[u] = nl
                        ch = True
            f.live = live

    def _place_uses(self, p, gen, kill):
        if p[0] not in kill:
            gen.add(p[0])
        for e in p[1:]:
            if isinstance(e, list) and e[0] == 'i' and e[1] not in kill:
                gen.add(e[1])

    def _uses(self, r, gen, kill):
        """Collect locals mentioned in an rvalue/operand JSON."""
        if not isinstance(r, list) or not r:
            return
        t = r[0]
        if t in ('cp', 'mv'):
            self._place_uses(r[1], gen, kill)
        elif t == 'k':
            return
        elif t in ('ref',):
            self._place_uses(r[2], gen, kill)
        elif t in ('addr', 'discr', 'len'):
            self._place_uses(r[1], gen, kill)
        elif t == 'agg':
            for o in r[2]:
                self._uses(o, gen, kill)
        else:
            for x in r[1:]:
                if isinstance(x, list):
                    self._uses(x, gen, kill)

    @staticmethod
    def succs(t):
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            return [x[1] for x in t[2]] + [t[3]]
        if k == 'drop':
            return [t[2]]
        if k == 'call':
            return [t[4]] if t[4] is not None else []
        if k == 'assert':
            return [t[4]]
        return []

    # constants -> values
    def const(self, j):
        k = id(j)
        v = self.ccache.get(k)
        if v is None:
            v = self._const(j)
            self.ccache[k] = v
        return v

    def mkadt(self, tid, variant, fields):
        t = self.types[tid]
        n = t.get('adt') if t['k'] == 'adt' else None
        if n in STRING_ADTS:
            f = fields[0] if fields else None
            if isinstance(f, tuple) and f[0] == 'O':
                return f
            if isinstance(f, tuple) and f[0] == 'V' and f[1] is None and not f[2]:
                return ('O', ())
            raise Unsupported('raw construction of %s' % n)
        if n == 'std::vec::Vec':
            if fields and fields[-1] == 0 and not isinstance(fields[-1], bool):
                return ('O', ()) if self.types[t['args'][0]]['n'] == 'u8' else ('V', None, ())
            raise Unsupported('raw construction of Vec')
        return ('A', tid, variant, fields)

    def _const(self, j):
        if 'b' in j:
            return j['b']
        if 'ch' in j:
            return ('ch', (chr(j['ch']).encode('utf-8', 'surrogatepass'),))
        if 'i' in j:
            return j['i']
        if 's' in j:
            b = j['s'].encode('utf-8')
            return ('S', (b,) if b else ())
        if 'tup' in j:
            return TUP(*[self.const(x) for x in j['tup']])
        if 'arr' in j:
            return ('T', tuple(self.const(x) for x in j['arr']))
        if 'bytes' in j:
            return ('T', tuple(j['bytes']))
        if 'adt' in j:
            return self.mkadt(j['t'], j['adt'], tuple(self.const(x) for x in j['f']))
        if 'z' in j:
            t = self.types[j['z']]
            if t['k'] in ('tuple', 'adt') and not t.get('f') or t['n'] == '()':
                return ('A', j['z'], 0, tuple(('Z', f[1]) for f in (t['v'][0]['f'] if t['k'] == 'adt' and t['v'] else [])))
            return ('Z', j['z'])
        if 'fnptr' in j:
            return ('P', j['fnptr'])
        if 'dynref' in j:
            inner = self.const(j['dynref'])
            if isinstance(inner, tuple) and inner[0] == 'S' and 'ref' not in j['dynref']:
                pass
            self.cmem.append(inner)
            return ('D', ('R', ('C', len(self.cmem) - 1), (), None), j['ct'])
        if 'ref' in j:
            x = j['ref']
            if 'bytes' in x:
                b = bytes(x['bytes'])
                return ('S', (b,) if b else ())
            v = self.const(x)
            self.cmem.append(v)
            rng = (0, len(v[1])) if isinstance(v, tuple) and v[0] == 'T' else None
            return ('R', ('C', len(self.cmem) - 1), (), rng)
        if '?' in j:
            return ('?', j['?'])
        raise Unsupported('const %r' % (j,))


class State(Facts):
    def __init__(self):
        self.cons, self.subst, self.atoms, self.bounds = {}, {}, {}, {}
        self.nopq = 0
        self.mem, self.own = {'env': [('X', 'ENVIT'), ('O', ()), ('O', ())]}, set()
        self.nfid = 0
        self.stack = []
        self.spec = None
        self.pend = None
        self.ended = False
        self.hist = ()
        self.trace = None
        self.nfork = 0
        self.astray = None      # nfork when the reference ended
        self.steps = 0

    def copy(self):
        s = State.__new__(State)
        self.copy_facts(s)
        s.mem = dict(self.mem)
        s.own = set()
        self.own = set()
        s.nfid = self.nfid
        s.stack = [list(f) for f in self.stack]
        for f in s.stack:
            f[6] = dict(f[6]) if f[6] else f[6]
        s.spec, s.pend, s.ended, s.hist, s.trace, s.nfork, s.steps, s.astray = self.spec, self.pend, self.ended, self.hist, self.trace, self.nfork, self.steps, self.astray
        return s

    def alloc(self, v):
        fid = self.nfid
        self.nfid += 1
        self.mem[fid] = [v]
        self.own.add(fid)
        return (fid, 0)

    # memory
    def cell(self, loc, prog):
        if loc[0] == 'C':
            return prog.cmem[loc[1]]
        return self.mem[loc[0]][loc[1]]

    def setcell(self, loc, v):
        fid = loc[0]
        if fid == 'C':
            raise Unsupported('write to constant')
        if fid not in self.own:
            self.mem[fid] = list(self.mem[fid])
            self.own.add(fid)
        self.mem[fid][loc[1]] = v


def child(v, i):
    if v[0] == 'A':
        return v[3][i]
    if v[0] in ('T',):
        return v[1][i]
    if v[0] == 'V':
        return v[2][i]
    raise Unsupported('project %r . %r' % (v[0], i))


def with_child(v, proj, nv):
    if not proj:
        return nv
    i = proj[0]
    if v is None:
        v = ('A', None, 0, ())      # field-by-field construction (compiler shims)
    if v[0] == 'A':
        f = list(v[3])
        while len(f) <= i:
            f.append(None)
        f[i] = with_child(f[i], proj[1:], nv)
        return ('A', v[1], v[2], tuple(f))
    if v[0] == 'T':
        f = list(v[1])
        f[i] = with_child(f[i], proj[1:], nv)
        return ('T', tuple(f))
    if v[0] == 'V':
        f = list(v[2])
        f[i] = with_child(f[i], proj[1:], nv)
        return ('V', v[1], tuple(f))
    raise Unsupported('write project %r' % (v[0],))


class Panic(Exception):
    def __init__(self, what):
        self.what = what


class Violation(Exception):
    def __init__(self, clause, msg):
        self.clause, self.msg = clause, msg


class NoUnify(Exception):
    pass


PTR = ('R', 'D', 'S', 'P', 'SM', 'Z')


class Native:
    """A library routine that calls back into analysed code."""
    name = 'native'
    key = 'native'

    def step(self, ip, st, fr, ret):
        raise NotImplementedError


class Interp:
    def __init__(self, prog, models, spec=None, limit=4000000):
        self.prog, self.models, self.spec = prog, models, spec
        self.limit = limit
        self.acts = {}
        self.nact = 0
        self.results = []       # (kind, detail)
        self.paths = 0
        self.widenings = 0
        self.total = 0
        self.found_at = None    # processor time of the first finding that matters
        self.wanted = lambda kind, what: True
        self.forks = 0
        self.fns_seen = set()
        self.calls_seen = set()

    # ---------- places ----------
    def read(self, st, loc, proj):
        v = st.cell(loc, self.prog)
        for i in proj:
            if v is None:
                raise Unsupported('read of uninitialised value')
            v = child(v, i)
        return v

    def write(self, st, loc, proj, v):
        if proj:
            v = with_child(st.cell(loc, self.prog), proj, v)
        st.setcell(loc, v)

    def peel_value(self, st, v):
        while isinstance(v, tuple) and v[0] == 'R' and not v[3]:
            v = self.read(st, v[1], v[2])
        return v

    def deref(self, v):
        t = v[0]
        if t == 'R':
            return ('loc', v[1], v[2], v[3])
        if t == 'D':
            r = self.deref(v[1])
            return r[:4] + (v[2],)
        if t in ('S', 'SM'):
            return ('val', v)
        raise Unsupported('deref of %r' % (v[:2],))

    def lval(self, st, fr, p):
        cur = ('loc', (fr[3], p[0]), (), None)
        for e in p[1:]:
            if e == '*':
                v = cur[1] if cur[0] == 'val' else self.read(st, cur[1], cur[2])
                if v is None:
                    raise Unsupported('deref of uninitialised')
                cur = self.deref(v)
                continue
            k = e[0]
            if k == 'f':
                if cur[0] == 'val':
                    v = cur[1]
                    if v[0] in PTR or v[0] in ('X', 'I'):
                        continue
                    cur = ('val', child(v, e[1]))
                    continue
                base = st.cell(cur[1], self.prog)
                try:
                    v = self.read(st, cur[1], cur[2])
                except Unsupported:
                    v = None
                if isinstance(v, tuple) and v[0] in PTR:
                    continue
                cur = ('loc', cur[1], cur[2] + (e[1],), None)
            elif k == 'd':
                continue
            elif k == 'i' or k == 'c' or k == 's':
                if cur[0] == 'val':
                    v = cur[1]
                    if v[0] == 'S':
                        if k == 'i':
                            off = st.mem[fr[3]][e[1]]
                        elif k == 'c':
                            off = e[1] if not e[3] else ladd(st.slen(v[1]), e[1], -1)
                        else:
                            lo = e[1]
                            hi = ladd(st.slen(v[1]), e[2], -1) if e[3] else e[2]
                            r = st.split_at(v[1], hi)
                            r = r and st.split_at(r[0], lo)
                            if r is None:
                                raise Unsupported('subslice pattern')
                            cur = ('val', ('S', r[1]))
                            continue
                        r = st.split_at(v[1], off)
                        if r is None:
                            raise Unsupported('byte index')
                        b = st.pop_byte(r[1])
                        if b is None:
                            raise Unsupported('byte index past end')
                        cur = ('val', self.byte(st, b[0]))
                        continue
                    raise Unsupported('index of value %r' % (v[0],))
                rng = cur[3]
                arr = self.read(st, cur[1], cur[2])
                items = arr[1] if arr[0] == 'T' else arr[2]
                lo, hi = rng if rng else (0, len(items))
                if k == 'i':
                    i = st.mem[fr[3]][e[1]]
                    if isinstance(i, tuple):
                        i = st.insertion(i)
                        if isinstance(i, tuple):
                            raise Unsupported('symbolic index')
                    cur = ('loc', cur[1], cur[2] + (lo + i,), None)
                elif k == 'c':
                    i = e[1]
                    cur = ('loc', cur[1], cur[2] + ((hi - i) if e[3] else (lo + i),), None)
                else:
                    cur = ('loc', cur[1], cur[2], (lo + e[1], (hi - e[2]) if e[3] else lo + e[2]))
            else:
                raise Unsupported('projection %r' % (e,))
        return cur

    def byte(self, st, segs):
        s = st.norm(segs)
        if len(s) == 1 and type(s[0]) is bytes:
            return s[0][0]
        return ('by', s)

    def rd(self, st, fr, p):
        if len(p) == 1:
            return st.mem[fr[3]][p[0]]
        c = self.lval(st, fr, p)
        if c[0] == 'val':
            return c[1]
        return self.read(st, c[1], c[2])

    def operand(self, st, fr, o):
        k = o[0]
        if k == 'cp' or k == 'mv':
            return self.rd(st, fr, o[1])
        if k == 'k':
            return self.prog.const(o[1])
        raise Unsupported('operand %r' % (o,))

    # ---------- rvalues ----------
    def rvalue(self, st, fr, r):
        k = r[0]
        if k == 'use':
            return self.operand(st, fr, r[1])
        if k == 'ref':
            return self.mkref(st, fr, r[2], r[1])
        if k == 'addr':
            return self.mkref(st, fr, r[1], True)
        if k == 'bin' or k == 'cbin':
            return self.binop(st, r[1], self.operand(st, fr, r[2]), self.operand(st, fr, r[3]), self.optype(fr, r[2]) or self.optype(fr, r[3]), k == 'cbin')
        if k == 'un':
            v = self.operand(st, fr, r[2])
            if r[1] == 'Not':
                if isinstance(v, bool):
                    return not v
                if isinstance(v, int):
                    return ~v & ((1 << 64) - 1)
            if r[1] == 'Neg' and isinstance(v, int):
                return -v
            if r[1] == 'PtrMetadata':
                return self.ptrlen(st, v)
            raise Unsupported('unop %s %r' % (r[1], v))
        if k == 'cast':
            return self.cast(st, r[1], self.operand(st, fr, r[2]), r[3], r[4])
        if k == 'discr':
            v = self.rd(st, fr, r[1])
            if v is None or v[0] == '?':
                return ('?', 'discriminant of a dead value')     # only ever feeds assume()
            if isinstance(v, tuple) and v[0] == 'A':
                if v[1] is not None:
                    t = self.prog.types[v[1]]
                    if t['k'] == 'adt':
                        return t['v'][v[2]]['d']
                return v[2]
            if isinstance(v, tuple) and v[0] == 'X':
                return self.models.discr(self, st, v)
            raise Unsupported('discriminant of %r' % (v,))
        if k == 'agg':
            ops = tuple(self.operand(st, fr, o) for o in r[2])
            kk = r[1]
            if kk[0] == 'tup':
                return ('A', None, 0, ops)
            if kk[0] == 'arr':
                return ('T', ops)
            if kk[0] == 'adt':
                return self.prog.mkadt(kk[1], kk[2], ops)
            if kk[0] == 'clo':
                return ('A', kk[1], 0, ops)
            raise Unsupported('aggregate %r' % (kk,))
        if k == 'len':
            c = self.lval(st, fr, r[1])
            if c[0] == 'val':
                return st.slen(c[1][1])
            if c[3]:
                return c[3][1] - c[3][0]
            v = self.read(st, c[1], c[2])
            return len(v[1])
        if k == 'rep':
            v = self.operand(st, fr, r[1])
            if r[2] is None or r[2] > 4096:
                raise Unsupported('repeat')
            return ('T', (v,) * r[2])
        raise Unsupported('rvalue %r' % (r,))

    def optype(self, fr, o):
        """Type id of an operand when cheaply known."""
        if o[0] == 'k':
            return o[2]
        p = o[1]
        if len(p) == 1:
            return fr[0].locals[p[0]]
        for e in reversed(p[1:]):
            if isinstance(e, list) and e[0] == 'f':
                return e[2]
            if e == '*':
                if len(p) == 2:
                    return self.prog.types[fr[0].locals[p[0]]].get('to')
            return None

    def mkref(self, st, fr, p, mut):
        c = self.lval(st, fr, p)
        if c[0] == 'val':
            v = c[1]
            if isinstance(v, tuple) and v[0] in ('S', 'SM'):
                return v
            return ('R', st.alloc(v), (), None)
        r = ('R', c[1], c[2], c[3])
        if len(c) > 4 and c[4] is not None:
            return ('D', r, c[4])
        return r

    def ptrlen(self, st, v):
        if v[0] == 'S':
            return st.slen(v[1])
        if v[0] == 'R':
            if v[3]:
                return v[3][1] - v[3][0]
            x = self.read(st, v[1], v[2])
            if isinstance(x, tuple) and x[0] == 'T':
                return len(x[1])
            if isinstance(x, tuple) and x[0] == 'O':
                return st.slen(x[1])
        raise Unsupported('metadata of %r' % (v,))

    def intrange(self, tid):
        t = self.prog.types[tid] if tid is not None else None
        if t and t['k'] == 'int':
            b = t['bits']
            return (-(1 << (b - 1)), (1 << (b - 1)) - 1, b, True) if t['signed'] else (0, (1 << b) - 1, b, False)
        return (0, (1 << 64) - 1, 64, False)

    def binop(self, st, op, a, b, tid, checked=False):
        if type(a) is tuple and a[0] == '?' or type(b) is tuple and b[0] == '?':
            return ('?', 'derived from a dead value')
        if type(a) is tuple and a[0] == 'X' or type(b) is tuple and b[0] == 'X':
            a, b = st.insertion(a), st.insertion(b)
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            r = self.compare(st, op, a, b)
            return r
        num = lambda x: isinstance(x, int) or isinstance(x, tuple) and x[0] == 'L'
        if isinstance(a, bool) and isinstance(b, bool):
            if op == 'BitAnd':
                return a and b
            if op == 'BitOr':
                return a or b
            if op == 'BitXor':
                return a != b
        if isinstance(a, tuple) and a[0] == 'by' or isinstance(b, tuple) and b[0] == 'by':
            raise Unsupported('byte arithmetic')
        if not (num(a) and num(b)):
            raise Unsupported('binop %s %r %r' % (op, a, b))
        lo, hi, bits, signed = self.intrange(tid)
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        over = op.endswith('WithOverflow') or checked
        conc = isinstance(a, int) and isinstance(b, int)
        if base in ('Add', 'Sub'):
            r = ladd(a, b, 1 if base == 'Add' else -1)
        elif base == 'Mul' and (isinstance(a, int) or isinstance(b, int)):
            if conc:
                r = a * b
            else:
                r = 0
                k, x = (a, b) if isinstance(a, int) else (b, a)
                c, t = lparts(x)
                r = lin(c * k, {s: v * k for s, v in t.items()})
        elif conc:
            u = (1 << bits) - 1
            if base == 'BitAnd':
                r = a & b
            elif base == 'BitOr':
                r = a | b
            elif base == 'BitXor':
                r = a ^ b
            elif base == 'Shl':
                r = (a << (b % bits)) & u
            elif base == 'Shr':
                r = a >> (b % bits)
            elif base == 'Div' and b:
                r = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
            elif base == 'Rem' and b:
                r = abs(a) % abs(b) * (1 if a >= 0 else -1)
            else:
                raise Unsupported('binop ' + op)
            return r
        else:
            raise Unsupported('binop %s on symbolic' % op)
        if isinstance(r, int):
            ov = not (lo <= r <= hi)
            if ov:
                r = (r - lo) % (1 << bits) + lo
        else:
            ov = not (st.le(r, hi) and st.le(lo, r))
            if ov:
                if not over:
                    raise Unsupported('symbolic wrap')
                r = ('?', 'wrapped')
        if over:
            return TUP(r, ov)
        return r

    def compare(self, st, op, a, b):
        if isinstance(a, tuple) and a[0] in ('ch', 'by') or isinstance(b, tuple) and b[0] in ('ch', 'by'):
            def segs(x):
                if isinstance(x, tuple):
                    return x[1]
                return (bytes([x]),)
            sa, sb = segs(a), segs(b)
            if op == 'Eq':
                return st.eq(sa, sb)
            if op == 'Ne':
                return not st.eq(sa, sb)
            na, nb = st.norm(sa), st.norm(sb)
            if len(na) == 1 and type(na[0]) is bytes and len(nb) == 1 and type(nb[0]) is bytes:
                x, y = (na[0], nb[0]) if a[0] == 'by' or isinstance(a, int) else (na[0].decode(), nb[0].decode())
                return {'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y}[op]
            # one side a known byte: decide by class
            sym, lit, flip = (na, nb, False) if type(nb[0]) is bytes else (nb, na, True)
            if len(lit) == 1 and type(lit[0]) is bytes and len(lit[0]) == 1 and lit[0][0] < 128:
                y = lit[0][0]
                o = op
                if flip:
                    o = {'Lt': 'Gt', 'Le': 'Ge', 'Gt': 'Lt', 'Ge': 'Le'}[op]
                cls = frozenset(x for x in range(256) if {'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y}[o])
                return self.first_in(st, sym, cls)
            raise Unsupported('char order')
        if isinstance(a, bool) or isinstance(b, bool):
            return {'Eq': a == b, 'Ne': a != b, 'Lt': a < b, 'Le': a <= b, 'Gt': a > b, 'Ge': a >= b}[op]
        if isinstance(a, int) and isinstance(b, int):
            return {'Eq': a == b, 'Ne': a != b, 'Lt': a < b, 'Le': a <= b, 'Gt': a > b, 'Ge': a >= b}[op]
        num = lambda x: isinstance(x, int) or isinstance(x, tuple) and x[0] == 'L'
        if num(a) and num(b):
            if op == 'Eq':
                return st.eqnum(a, b)
            if op == 'Ne':
                return not st.eqnum(a, b)
            if op == 'Le':
                return st.le(a, b)
            if op == 'Lt':
                return not st.le(b, a)
            if op == 'Ge':
                return st.le(b, a)
            return not st.le(a, b)
        if op in ('Eq', 'Ne') and isinstance(a, tuple) and isinstance(b, tuple) and a[0] in ('R', 'P', 'D') and b[0] in ('R', 'P', 'D'):
            return (a == b) == (op == 'Eq')
        raise Unsupported('compare %s %r %r' % (op, a, b))

    def first_in(self, st, segs, cls):
        s = st.norm(segs)[0]
        if type(s) is bytes:
            return s[0] in cls
        if s[0] != 'o':
            raise Unsupported('class of %r' % (s,))
        c = st.cons[s[1]]
        f = c.firsts()
        if f <= cls:
            return True
        if not (f & cls):
            return False
        raise Fork([[('con', s[1], c.with_(first=f & cls))], [('con', s[1], c.with_(first=f - cls))]])

    def cast(self, st, k, v, tid, otid):
        if k.startswith('PointerCoercion'):
            if 'Unsize' in k:
                return self.unsize(v, tid, otid)
            if 'ReifyFnPointer' in k or 'ClosureFnPointer' in k:
                if v[0] == 'Z':
                    t = self.prog.types[v[1]]
                    c = t.get('callee')
                    if c and 'key' in c:
                        return ('P', c['key'])
                    if t['k'] == 'closure' and t.get('once'):
                        return ('P', t['once'])
                    if c:
                        return ('P', 'callee', json.dumps(c))
                if v[0] == 'A' and v[1] is not None and self.prog.types[v[1]].get('once'):
                    return ('P', self.prog.types[v[1]]['once'])
                raise Unsupported('reify %r' % (v,))
            return v
        if k == 'IntToInt':
            if isinstance(v, bool):
                return int(v)
            if isinstance(v, int):
                lo, hi, bits, signed = self.intrange(tid)
                t = self.prog.types[tid]
                if t['k'] == 'char':
                    return ('ch', (chr(v).encode(),))
                return (v - lo) % (1 << bits) + lo
            if isinstance(v, tuple) and v[0] == 'L':
                lo, hi, bits, signed = self.intrange(tid)
                if st.le(v, hi) and st.le(lo, v):
                    return v
                raise Unsupported('truncating cast')
            if isinstance(v, tuple) and v[0] == 'ch':
                s = st.norm(v[1])
                if len(s) == 1 and type(s[0]) is bytes:
                    lo, hi, bits, signed = self.intrange(tid)
                    return ord(s[0].decode()) & hi
                return v
            if isinstance(v, tuple) and v[0] == 'by':
                if self.prog.types[tid]['k'] == 'char':
                    if self.first_in(st, v[1], frozenset(range(128))):
                        return ('ch', v[1])
                    raise Unsupported('latin1 cast')
                return v
            if isinstance(v, tuple) and v[0] == 'A' and not v[3]:
                t = self.prog.types[v[1]] if v[1] is not None else None
                return t['v'][v[2]]['d'] if t and t['k'] == 'adt' else v[2]
            raise Unsupported('int cast of %r' % (v,))
        if k in ('Transmute', 'PtrToPtr', 'FnPtrToPtr', 'Subtype') or 'Transmute' in k:
            return self.transmute(st, v, tid)
        raise Unsupported('cast %s' % k)

    def transmute(self, st, v, tid):
        if tid is not None and (isinstance(v, int) or isinstance(v, tuple) and v[0] == 'L') and self.prog.types[tid]['n'].startswith('std::option::Option<std::num::NonZero<'):
            return NONE() if self.compare(st, 'Eq', v, 0) else SOME(v)       # a NonZero is represented by its integer
        return v

    def pointee(self, tid):
        t = self.prog.types[tid]
        if t['k'] in ('ref', 'ptr'):
            return t['to']
        if t['k'] == 'adt' and t.get('args'):
            return t['args'][0]
        return None

    def unsize(self, v, tid, otid):
        to = self.pointee(tid)
        tt = self.prog.types[to]
        if tt['k'] == 'dyn':
            if v[0] == 'D':
                return v
            return ('D', v, self.pointee(otid))
        if v[0] == 'R' and v[3] is None:
            # array to slice
            fr = self.pointee(otid)
            ft = self.prog.types[fr]
            if ft['k'] == 'array':
                return ('R', v[1], v[2], (0, ft['len']))
        return v

    # ---------- control ----------
    def run(self, st):
        # Once the reference has ended, how the tree ends is seen first where little more is given: such paths are followed to
        # a depth which grows when nothing else is left.
        work, later, depth = [st], [], 10
        while work or later:
            if not work:
                work, later, depth = later, [], depth * 2
            st = work.pop()
            if st.spec is None or st.spec[0] != 'term':
                st.astray = None
            elif st.astray is None:
                st.astray = st.nfork
            elif st.nfork - st.astray > depth:
                later.append(st)
                continue
            self.total_guard()
            try:
                out = self.run_path(st)
            except Infeasible:
                continue
            work.extend(out)

    def approx(self, what):
        """A model follows only some of the possible cases: findings stand, the definition is not decided."""
        self.results.append(('unsupported', 'approximate: ' + what, '', []))

    def total_guard(self):
        if self.total > self.limit:
            raise Unsupported('analysis budget exceeded')
        if self.found_at is not None and time.process_time() - self.found_at > AFTER_VIOLATION:
            raise Unsupported('stopped %d seconds after the first finding' % AFTER_VIOLATION)

    def run_path(self, st):
        """Run until the path ends or splits; returns successor states."""
        while True:
            self.total += 1
            if self.total & 0xfff == 0:
                self.total_guard()
            try:
                r = self.step(st)
                if r == 'end':
                    return []
                if r is not None:
                    return r
            except Fork as f:
                self.forks += 1
                outs, scores = [], []
                base = self.snap if self.snap is not None else st
                for ops in f.alts:
                    s = base.copy()
                    try:
                        for op in ops:
                            if op[0] == 'pend':
                                s.pend = op[1]
                            else:
                                s.apply(op)
                        s.trace = (s.trace, ops)
                        if len(f.alts) > 1:
                            s.nfork += 1
                        outs.append(s)
                        scores.append(sum(4 if op[0] == 'con' and op[2].mx == 0 or op == ('pend', False) else -1 if op[0] == 'new' else
                                          1 if op[0] == 'con' and op[2].utf8 and op[2].mn == 0 else 0 for op in ops))
                    except Infeasible:
                        pass
                self.snap = None
                if len(outs) > 1 and base.spec is not None and base.spec[0] == 'term':
                    # The reference has ended and the tree goes on: how it ends is soonest seen where nothing more is given.
                    outs = [s for _, s in sorted(zip(scores, outs), key=lambda x: x[0])]
                return outs
            except Panic as p:
                self.result('panic', p.what, st)
                return []
            except Violation as v:
                self.result('violation', (v.clause, v.msg), st)
                return []
            except Unsupported as u:
                self.result('unsupported', str(u), st)
                return []
            except (TypeError, KeyError, IndexError, AttributeError, ValueError, AssertionError) as e:
                import traceback
                tb = traceback.extract_tb(e.__traceback__)[-1]
                self.result('unsupported', 'internal: %s: %s (%s:%d)' % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno), st)
                return []

    snap = None

    def where(self, st):
        for fr in reversed(st.stack):
            f = fr[0]
            if isinstance(f, Native):
                continue
            if f.crate in ('core', 'alloc', 'std'):
                continue
            return '%s (%s)' % (f.name, f.blocks[fr[1]]['t']['s'])
        return '?'

    def result(self, kind, what, st):
        w = self.where(st)
        if kind == 'unsupported' and st.stack:
            fr = st.stack[-1]
            what = '%s [in %s bb%s]' % (what, fr[0].name, fr[1])
        if self.found_at is None and kind in ('violation', 'panic') and self.wanted(kind, what):
            self.found_at = time.process_time()
        self.results.append((kind, what, w, self.describe(st)))

    def describe(self, st):
        return [show(st, t) if t is not None else '<end>' for t in st.hist] if st.hist else []

    def step(self, st):
        self.snap = None
        fr = st.stack[-1]
        f = fr[0]
        if isinstance(f, Native):
            self.snap = st.copy()
            ret = fr[2]
            fr[2] = None
            return f.step(self, st, fr, ret)
        blk = f.blocks[fr[1]]
        stm = blk['s']
        i = fr[2]
        n = len(stm)
        while i < n:
            s = stm[i]
            k = s[0]
            if k == '=':
                fr[2] = i
                v = self.rvalue(st, fr, s[2])
                p = s[1]
                if len(p) == 1:
                    fid = fr[3]
                    if fid not in st.own:
                        st.mem[fid] = list(st.mem[fid])
                        st.own.add(fid)
                    st.mem[fid][p[0]] = v
                else:
                    c = self.lval(st, fr, p)
                    if c[0] == 'val':
                        raise Unsupported('assignment through %r' % (c[1],))
                    self.write(st, c[1], c[2], v)
            elif k == 'sd':
                c = self.lval(st, fr, s[1])
                v = self.read(st, c[1], c[2])
                self.write(st, c[1], c[2], ('A', v[1] if v else None, s[2], v[3] if v else ()))
            i += 1
        fr[2] = n
        t = blk['t']['k']
        k = t[0]
        if k == 'goto':
            return self.goto(st, fr, t[1])
        if k == 'switch':
            v = self.operand(st, fr, t[1])
            return self.goto(st, fr, self.switch(st, v, t))
        if k == 'call':
            return self.do_call(st, fr, t)
        if k == 'drop':
            return self.goto(st, fr, t[2])
        if k == 'ret':
            return self.do_ret(st, fr)
        if k == 'assert':
            v = self.operand(st, fr, t[1])
            if not isinstance(v, bool):
                raise Unsupported('assert on %r' % (v,))
            if v != t[2]:
                raise Panic('%s failed in %s' % (t[3], f.name))
            return self.goto(st, fr, t[4])
        if k == 'unreachable':
            raise Panic('unreachable code reached in %s' % f.name)
        raise Unsupported('terminator %r' % (t,))

    def switch(self, st, v, t):
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, int):
            for x, b in t[2]:
                # values are stored as unsigned bit patterns
                if x == v or v < 0 and (x & 0xff) == (v & 0xff) and x in (v & 0xff, v & 0xffff, v & 0xffffffff, v & (2**64 - 1), v & (2**128 - 1)):
                    return b
            return t[3]
        if isinstance(v, tuple) and v[0] in ('ch', 'by'):
            for x, b in t[2]:
                lit = (chr(x).encode(),) if v[0] == 'ch' else (bytes([x]),)
                if st.eq(v[1], lit):
                    return b
            return t[3]
        if isinstance(v, tuple) and v[0] == 'L':
            for x, b in t[2]:
                if st.eqnum(v, x):
                    return b
            return t[3]
        raise Unsupported('switch on %r' % (v,))

    def goto(self, st, fr, bb):
        src = fr[1]
        f = fr[0]
        if bb in f.heads:
            return self.loop_arrive(st, fr, src, bb)
        fr[1] = bb
        fr[2] = 0
        return None

    # ---------- calls ----------
    def do_call(self, st, fr, t):
        callee = t[1]
        args = [self.operand(st, fr, a) for a in t[2]]
        if t[4] is None:
            dest = None
        else:
            c = self.lval(st, fr, t[3])
            dest = (c[1], c[2])
        return self.call(st, callee, args, dest, t[4], t[5])

    def call(self, st, callee, args, dest, target, dty=None):
        k = callee['k']
        prog = self.prog
        if k == 'ptr' or k == 'ptrv':
            p = args and None
            op = callee.get('val')
            if op is None:
                op = self.operand(st, st.stack[-1], callee['op'])
            if op[0] == 'P' and op[1] == 'callee':
                return self.call(st, json.loads(op[2]), args, dest, target, dty)
            if op[0] != 'P':
                raise Unsupported('call through %r' % (op,))
            d, nm, cr = prog.names[op[1]]
            callee = {'k': 'item', 'def': d, 'idef': d, 'inst': nm, 'key': op[1], 'crate': cr, 'args': [], 'viaptr': True}
            k = 'item'
        if k == 'virtual':
            recv = args[0]
            while recv[0] == 'R':
                recv = self.read(st, recv[1], recv[2])
            if recv[0] != 'D':
                raise Unsupported('virtual call on %r' % (recv[:1],))
            if recv[2] == 'ENV':
                self.snap = st.copy()
                v = self.models.env_call(self, st, callee['def'], args)
                return self.deliver(st, v, dest, target)
            key = prog.vt.get((recv[2], callee['def'])) or prog.vt.get((prog.types[recv[2]]['n'], callee['def']))
            if key is None:
                raise Unsupported('no vtable entry %s for %s' % (callee['def'], prog.types[recv[2]]['n']))
            args = [recv[1]] + args[1:]
            d, nm, cr = prog.names[key]
            callee = {'k': 'item', 'def': callee['def'], 'idef': d, 'inst': nm, 'key': key, 'crate': cr, 'args': [recv[2]]}
        m = self.models.find(callee)
        if m is not None:
            self.snap = st.copy()
            self.calls_seen.add(callee.get('inst') or callee['def'])
            v = m(self, st, callee, args, dty)
            if v is FALL:
                m = None
            elif v is CALLED:
                top = st.stack[-1]
                if top[4] is PENDING:
                    top[4], top[5] = dest, target
                return None
            elif v is ENDPATH:
                return 'end'
            else:
                return self.deliver(st, v, dest, target)
        key = callee.get('key')
        f = prog.fn(key) if key else None
        if f is None:
            raise Unsupported('no body or model for %s' % (callee.get('inst') or callee['def']))
        if target is None and dest is None and f.blocks and False:
            pass
        self.push(st, f, args, dest, target, callee)
        return None

    def push(self, st, f, args, dest, target, callee=None):
        if len(st.stack) > 60:
            raise Unsupported('recursion too deep')
        fntrait = callee is not None and callee['def'].startswith('std::ops::Fn') and '::call' in callee['def']
        if fntrait and not f.shim and '{closure' in f.name.rsplit('::', 1)[-1] and len(args) == 2:
            tup = args[1]
            args = [args[0]] + list(tup[3])
        if f.shim and f.spread is not None and len(args) == f.nargs and fntrait:
            pass
        if len(args) != f.nargs:
            if fntrait and len(args) == 2 and f.nargs == 1 + len(args[1][3]):
                args = [args[0]] + list(args[1][3])
            elif fntrait and f.nargs == len(args[1][3]):
                args = list(args[1][3])
            else:
                raise Unsupported('arity of %s: %d for %d' % (f.name, len(args), f.nargs))
        self.fns_seen.add((f.crate, f.name))
        fid = st.nfid
        st.nfid += 1
        loc = [None] * len(f.locals)
        loc[1:1 + len(args)] = args
        st.mem[fid] = loc
        st.own.add(fid)
        st.stack.append([f, 0, 0, fid, dest, target, {}])
        if 0 in f.heads:
            self.loop_arrive(st, st.stack[-1], -1, 0)

    def push_native(self, st, nat, data, dest=None, target=None):
        st.stack.append([nat, data, None, None, dest if dest is not None else PENDING, target, {}])

    def deliver(self, st, v, dest, target):
        fr = st.stack[-1]
        if isinstance(fr[0], Native):
            fr[2] = v
            return None
        if target is None:
            raise Unsupported('return from diverging call')
        self.write(st, dest[0], dest[1], v)
        return self.goto(st, fr, target)

    def do_ret(self, st, fr):
        v = st.mem[fr[3]][0]
        return self.ret(st, v)

    def ret(self, st, v):
        fr = st.stack.pop()
        if not st.stack:
            if fr[3] is not None:
                pass
            self.paths += 1
            if self.spec is not None:
                self.snap = None
                # restore the frame for restartability
                st.stack.append(fr)
                self.snap = st.copy()
                self.spec.on_return(self, st, v)
                st.stack.pop()
            else:
                self.results.append(('return', v, '', st))
            return 'end'
        dest, target = fr[4], fr[5]
        if fr[3] is not None:
            st.dead_fid = fr[3]
        top = st.stack[-1]
        if v is None:
            v = UNIT
        if isinstance(top[0], Native):
            top[2] = v
            return None
        if target is None:
            raise Unsupported('return to diverging call')
        self.write(st, dest[0], dest[1], v)
        return self.goto(st, top, target)

    # ---------- loops ----------
    def loop_arrive(self, st, fr, src, h):
        f = fr[0]
        back = src >= 0 and src in f.bodies[h]
        fr[1], fr[2] = h, 0
        if not back:
            self.nact += 1
            fr[6][h] = (self.nact, st.nfork)
            self.acts[self.nact] = []
            self.sync_spec(st)
            # leave the first state concrete: loops whose control never depends on input unroll
            self.acts[self.nact].append(st.copy())
            return None
        act, nf = fr[6][h]
        if st.nfork == nf:
            st.steps += 1
            if st.steps > 200000:
                raise Panic('loop in %s does not terminate' % f.name)
            return None
        fr[6][h] = (act, st.nfork)
        self.sync_spec(st)
        self.clear_dead(st)
        gs = self.acts[act]
        if len(gs) > 400:
            raise Unsupported('loop in %s does not stabilise' % f.name)
        g = None
        for gi in range(len(gs) - 1, -1, -1):
            try:
                cov, w = self.unify(gs[gi], st, g is None)
            except NoUnify:
                continue
            if cov:
                return 'end'
            g = g or w
        if g is not None:
            self.widenings += 1
            g.stack[-1][6][h] = (act, g.nfork)
            gs.append(g.copy())
            g.hist = ('...',)
            return [g]
        gs.append(st.copy())
        return None

    def sync_spec(self, st):
        if self.spec is None:
            return
        while True:
            try:
                sp = self.spec.micro(st, st.spec)
            except Fork:
                return
            if sp is None:
                return
            st.spec = sp

    def clear_dead(self, st):
        pass

    def live_locals(self, fr, top):
        f = fr[0]
        if isinstance(f, Native):
            return ()
        if top and f.live is not None:
            return f.live[fr[1]]
        # caller frames: everything live after the call
        key = ('callive', fr[1])
        return self.call_live(f, fr[1])

    def call_live(self, f, bb):
        if f.live is None:
            self.full_live(f)
        t = f.blocks[bb]['t']['k']
        if t[0] == 'call' and t[4] is not None:
            return f.live[t[4]] - ({t[3][0]} if len(t[3]) == 1 else set())
        return set(range(len(f.locals)))

    def full_live(self, f):
        hs = f.heads
        f.heads = set()
        # force liveness computation
        n = len(f.blocks)
        succ = [self.prog.succs(b['t']['k']) for b in f.blocks]
        use = []
        P = self.prog
        for b in f.blocks:
            gen, kill = set(), set()
            for s in b['s']:
                if s[0] == '=':
                    P._uses(s[2], gen, kill)
                    if len(s[1]) == 1:
                        kill.add(s[1][0])
                    else:
                        P._place_uses(s[1], gen, kill)
                elif s[0] == 'dead':
                    kill.add(s[1])
                elif s[0] == 'sd':
                    P._place_uses(s[1], gen, kill)
            t = b['t']['k']
            if t[0] == 'call':
                for a in t[2]:
                    P._uses(a, gen, kill)
                if t[1].get('op'):
                    P._uses(t[1]['op'], gen, kill)
                if len(t[3]) > 1:
                    P._place_uses(t[3], gen, kill)
                else:
                    kill.add(t[3][0])
            elif t[0] in ('switch', 'assert'):
                P._uses(t[1], gen, kill)
            elif t[0] == 'ret' and 0 not in kill:
                gen.add(0)
            use.append((gen, kill))
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for u in range(n - 1, -1, -1):
                o = set()
                for v in succ[u]:
                    o |= live[v]
                nl = use[u][0] | (o - use[u][1])
                if nl != live[u]:
                    live[u] = nl
                    ch = True
        f.live = live
        f.heads = hs

    # ---------- generalisation ----------
    def unify(self, G, S, build=True):
        """Least general common abstraction of two states at the same loop head.

        Returns (covered, state); raises NoUnify when they differ in control-relevant shape."""
        if len(G.stack) != len(S.stack):
            raise NoUnify()
        for a, b in zip(G.stack, S.stack):
            if a[0] is not b[0] or a[1] != b[1] or a[5] != b[5]:
                raise NoUnify()
        if (G.pend, G.ended) != (S.pend, S.ended):
            raise NoUnify()
        U = Unifier(self, G, S)
        return U.go(build)


class Unifier:
    def __init__(self, ip, G, S):
        self.ip, self.G, self.S = ip, G, S
        self.base = max(G.nopq, S.nopq)
        self.next = self.base
        self.segmemo = {}      # (gparts, sparts) -> segs
        self.newcons = {}
        self.valmemo = {}
        self.nval = 0
        self.phase = 1
        self.gen = False       # something had to be generalised beyond instantiation
        self.inst = {}         # G opaque -> S parts
        self.identity = set()
        self.valinst = {}

    def go(self, build=True):
        for phase in (1, 2):
            self.phase = phase
            self.locmap, self.locinv, self.queue = {}, {}, []
            self.cells = {}
            ip = self.ip
            for i, (a, b) in enumerate(zip(self.G.stack, self.S.stack)):
                if a[3] is None:
                    if a[1] != b[1]:
                        d = self.au(a[1], b[1])
                    continue
                live = ip.live_locals(a, i == len(self.G.stack) - 1)
                for l in live:
                    self.pair((a[3], l), (b[3], l))
                self.destpair(a[4], b[4])
            self.spec = self.au_spec(self.G.spec, self.S.spec)
            while self.queue:
                g, s = self.queue.pop()
                gv = self.G.mem[g[0]][g[1]]
                sv = self.S.mem[s[0]][s[1]]
                self.cells[s] = self.au(gv, sv)
        # coverage
        cov = not self.gen and self.covered()
        if cov:
            return True, None
        if not build:
            return False, None
        st = self.S.copy()
        st.cons = {}
        for o, c in self.newcons.items():
            st.cons[o] = c
        st.subst = {}
        st.nopq = self.next
        keep = self.identity
        st.atoms = {k: v for k, v in self.S.atoms.items() if self.G.atoms.get(k) == v and self.only(k, keep)}
        st.bounds = {}
        for k, (a, b) in self.S.bounds.items():
            if k in self.G.bounds:
                x = self.G.bounds[k]
                st.bounds[k] = (min(a, x[0]), max(b, x[1]))
        st.mem = {'env': self.S.mem['env']}
        for s, v in self.cells.items():
            fid = s[0]
            if fid not in st.mem:
                st.mem[fid] = [None] * len(self.S.mem[fid])
            st.mem[fid][s[1]] = v
        for fr in st.stack:
            if fr[3] is not None and fr[3] not in st.mem:
                st.mem[fr[3]] = [None] * len(fr[0].locals)
        st.own = set()
        st.spec = self.spec
        return False, st

    def only(self, key, keep):
        def ok(x):
            if isinstance(x, tuple):
                if len(x) == 2 and x[0] == 'o':
                    return x[1] in keep
                return all(ok(y) for y in x)
            return True
        return ok(key)

    def destpair(self, a, b):
        if a is None or a is PENDING or b is None or b is PENDING:
            return
        self.loc(a[0], b[0])
        if a[1] != b[1]:
            raise NoUnify()

    def pair(self, g, s):
        self.loc(g, s)

    def loc(self, g, s):
        if g[0] == 'C' or s[0] == 'C' or g[0] == 'env':
            if g != s:
                raise NoUnify()
            return
        if self.locmap.get(g, s) != s or self.locinv.get(s, g) != g:
            raise NoUnify()
        if g not in self.locmap:
            self.locmap[g] = s
            self.locinv[s] = g
            self.queue.append((g, s))

    def au_spec(self, g, s):
        if isinstance(g, tuple) and isinstance(s, tuple) and g and s and g[0] in ('S', 'O', 'A', 'V', 'X', 'ch', 'by', 'L', 'T', 'R'):
            return self.au(g, s)
        if isinstance(g, tuple) and isinstance(s, tuple):
            if len(g) != len(s):
                raise NoUnify()
            return tuple(self.au_spec(a, b) for a, b in zip(g, s))
        if g != s:
            raise NoUnify()
        return g

    def au(self, g, s):
        if g is None or s is None:
            if g is s:
                return None
            return None   # dead on one side: unusable
        if isinstance(g, bool) or isinstance(s, bool):
            if g is not s:
                raise NoUnify()
            return g
        gn, sn = isinstance(g, int) or g[0] == 'L', isinstance(s, int) or s[0] == 'L'
        if gn and sn:
            return self.num(g, s)
        if gn or sn:
            if isinstance(g, int) and s[0] == 'by' and 0 <= g < 256:
                return ('by', self.segs((bytes([g]),), s[1]))
            if isinstance(s, int) and g[0] == 'by' and 0 <= s < 256:
                return ('by', self.segs(g[1], (bytes([s]),)))
            raise NoUnify()
        t = g[0]
        if t != s[0]:
            raise NoUnify()
        if t == 'A':
            if g[2] != s[2] or len(g[3]) != len(s[3]):
                raise NoUnify()
            return ('A', s[1], s[2], tuple(self.au(a, b) for a, b in zip(g[3], s[3])))
        if t in ('S', 'O', 'ch', 'by'):
            return (t, self.segs(g[1], s[1]))
        if t == 'R':
            self.loc(g[1], s[1])
            if g[2] != s[2] or g[3] != s[3]:
                raise NoUnify()
            return s
        if t == 'SM':
            self.loc(g[1], s[1])
            if g[2] != s[2]:
                raise NoUnify()
            return s
        if t == 'D':
            if g[2] != s[2]:
                raise NoUnify()
            return ('D', self.au(g[1], s[1]), s[2])
        if t == 'T':
            if len(g[1]) != len(s[1]):
                raise NoUnify()
            return ('T', tuple(self.au(a, b) for a, b in zip(g[1], s[1])))
        if t == 'V':
            if g[1] == s[1] and len(g[2]) == len(s[2]):
                if g[1] is not None:
                    self.valpair(('V', g[1], ()), ('V', s[1], ()))
                return ('V', g[1], tuple(self.au(a, b) for a, b in zip(g[2], s[2])))
            return self.valpair(g, s)
        if t == 'X':
            if len(g) == len(s) and g[1] == s[1] and g[1] != '?':
                return ('X', g[1]) + tuple(self.aux(a, b) for a, b in zip(g[2:], s[2:]))
            return self.valpair(g, s)
        if t == 'I':
            if g[1] != s[1] or len(g) != len(s):
                raise NoUnify()
            return ('I', g[1]) + tuple(self.aux(a, b) for a, b in zip(g[2:], s[2:]))
        if g != s:
            raise NoUnify()
        return s

    def aux(self, a, b):
        """Argument of an X/I value: string segments, values or plain data."""
        if isinstance(a, tuple) and isinstance(b, tuple):
            if (not a or type(a[0]) is bytes or isinstance(a[0], tuple)) and (not b or type(b[0]) is bytes or isinstance(b[0], tuple)):
                return self.segs(a, b)
            return self.au(a, b)
        if isinstance(a, int) and isinstance(b, int) and not isinstance(a, bool):
            return self.num(a, b)
        if isinstance(a, (int, tuple)) and isinstance(b, (int, tuple)):
            return self.num(a, b)
        if a != b:
            raise NoUnify()
        return a

    def valpair(self, g, s):
        kg, ks = self.nval_norm(self.G, g), self.nval_norm(self.S, s)
        k = (kg, ks)
        if k in self.valmemo:
            return self.valmemo[k]
        isleaf = g[0] == 'V' and g[1] is not None and not g[2] or g[0] == 'X' and g[1] == '?'
        if isleaf:
            lk = g[1] if g[0] == 'V' else g[2]
            if lk in self.valinst and self.valinst[lk] != ks:
                self.gen = True
            self.valinst.setdefault(lk, ks)
        else:
            self.gen = True
        if kg == ks and isleaf:
            r = g
        else:
            n = self.next
            self.next += 1
            r = ('V', ('vb', n), ()) if g[0] == 'V' else ('X', '?', n)
        self.valmemo[k] = r
        return r

    def nval_norm(self, st, v):
        if not isinstance(v, tuple):
            return v
        if v and v[0] in ('S', 'O', 'ch', 'by') and len(v) == 2:
            return (v[0], st.norm(v[1]))
        if v and v[0] == 'L':
            return st.lnorm(v)
        if v and v[0] == 'A':
            return ('A', None, v[2], tuple(self.nval_norm(st, x) for x in v[3]))
        if v and (type(v[0]) is bytes or isinstance(v[0], tuple) and v[0] and v[0][0] in ('o', 'lower')):
            return st.norm(v)
        return tuple(self.nval_norm(st, x) for x in v)

    def part_con(self, st, parts):
        if not parts:
            return lit_con(b'')
        if len(parts) == 1:
            p = parts[0]
            if type(p) is bytes:
                return lit_con(p)
            if p[0] == 'o':
                return st.cons[p[1]]
            return Con()
        cons = [self.part_con(st, (p,)) for p in parts]
        cls = frozenset()
        for c in cons:
            cls = None if cls is None or c.cls is None else cls | c.cls
        f = cons[0]
        u = all(c.utf8 for c in cons) or None
        return Con(cls=cls, first=f.first if f.mn > 0 else None, mn=sum(c.mn for c in cons),
                   mx=None if any(c.mx is None for c in cons) else sum(c.mx for c in cons), utf8=u)

    def segpair(self, gp, sp):
        """Generalise two parts."""
        if not gp and not sp:
            return ()
        k = (gp, sp)
        if k in self.segmemo:
            return self.segmemo[k]
        if len(gp) == 1 and gp[0][0] == 'o' if gp and type(gp[0]) is tuple else False:
            o = gp[0][1]
            if o in self.inst and self.inst[o] != sp:
                self.gen = True
            self.inst.setdefault(o, sp)
            if not self.part_con(self.G, gp).covers(self.part_con(self.S, sp)):
                self.gen = True
        else:
            self.gen = True
        gc = self.part_con(self.G, gp)
        con = gc.join(self.part_con(self.S, sp))
        if con.mx is not None and con.mx > max(gc.mx, 8):       # a length that keeps growing
            con = con.with_(mx=None)
        if gp == sp and len(gp) == 1 and type(gp[0]) is tuple and gp[0][0] == 'o':
            o = gp[0][1]
            self.identity.add(o)
            self.newcons[o] = con
            r = gp
        else:
            o = self.next
            self.next += 1
            self.newcons[o] = con
            r = (('o', o),)
        self.segmemo[k] = r
        return r

    def segs(self, g, s):
        g, s = self.G.norm(g), self.S.norm(s)
        # exact memo first (whole strings paired before)
        if (g, s) in self.segmemo:
            return self.segmemo[(g, s)]
        out = []
        gl, sl = list(g), list(s)
        # common literal prefix
        pre = []
        while gl and sl and type(gl[0]) is bytes and type(sl[0]) is bytes:
            a, b = gl[0], sl[0]
            n = 0
            while n < min(len(a), len(b)) and a[n] == b[n]:
                n += 1
            if n == 0:
                break
            pre.append(a[:n])
            gl[0], sl[0] = a[n:], b[n:]
            if not gl[0]:
                gl.pop(0)
            if not sl[0]:
                sl.pop(0)
            if n < min(len(a), len(b)):
                break
        while gl and sl or gl and type(gl[-1]) is tuple and self.inst.get(gl[-1][1] if gl[-1][0] == 'o' else None) == ():
            a = gl[-1]
            if type(a) is tuple and a[0] == 'o' and a[1] in self.inst:
                x = self.inst[a[1]]
                if len(x) <= len(sl) and tuple(sl[len(sl) - len(x):]) == x:
                    # this unknown already stands for exactly this piece
                    out.append(self.segpair((a,), x))
                    gl.pop()
                    del sl[len(sl) - len(x):]
                    continue
            b = sl[-1]
            if type(a) is bytes and type(b) is bytes:
                n = 0
                while n < min(len(a), len(b)) and a[-1 - n] == b[-1 - n]:
                    n += 1
                if n == 0:
                    break
                out.append((a[len(a) - n:],))
                gl[-1], sl[-1] = a[:len(a) - n], b[:len(b) - n]
                if not gl[-1]:
                    gl.pop()
                if not sl[-1]:
                    sl.pop()
                if n < min(len(a), len(b)):
                    break
            elif type(a) is tuple and type(b) is tuple and a[0] == b[0] == 'o':
                if len(gl) == 1 and len(sl) > 1:
                    break           # the last unknown absorbs everything left
                out.append(self.segpair((a,), (b,)))
                gl.pop()
                sl.pop()
            elif type(a) is tuple and type(b) is tuple and a[0] == b[0] and a[0] in ('lower', 'dbg'):
                if a[0] == 'lower':
                    r = self.segs((a[1],), (b[1],))
                    if len(r) != 1:
                        raise NoUnify()
                    out.append((('lower', r[0]),))
                else:
                    out.append((('dbg', self.segs(a[1], b[1])),))
                gl.pop()
                sl.pop()
            else:
                break
        mid = self.segpair(tuple(gl), tuple(sl))
        res = tuple(pre) + mid
        for p in reversed(out):
            res += p
        return res

    def num(self, g, s):
        g, s = self.G.lnorm(g), self.S.lnorm(s)
        if isinstance(g, int) and g == s:
            return g
        if self.phase == 1:
            return g
        # find c + sum(len(fresh)) matching both sides
        cands = []
        for (gp, sp), r in self.segmemo.items():
            if len(r) == 1 and type(r[0]) is tuple and r[0][0] == 'o':
                cands.append((self.G.slen(gp), self.S.slen(sp), r[0]))
        import itertools
        for n in (0, 1, 2, 3):
            for sub in itertools.combinations(cands, n):
                a, b = g, s
                for (x, y, r) in sub:
                    a = self.G.lnorm(ladd(a, x, -1))
                    b = self.S.lnorm(ladd(b, y, -1))
                if isinstance(a, int) and a == b:
                    return lin(a, {('len', r): 1 for (_, _, r) in sub})
        raise NoUnify()

    def covered(self):
        # facts the general state relies on must hold in the instance
        live = set(self.inst)
        for k, v in self.G.atoms.items():
            ops = set()
            self.opaques(k, ops)
            if ops and not (ops & live):
                continue
            if ops <= self.identity:
                if self.S.atoms.get(k) != v:
                    return False
                continue
            if ops <= live:
                try:
                    nk = self.S._natom(self.subst_key(k))
                except Exception:
                    return False
                if self.S.atoms.get(nk) != v:
                    return False
        for k, v in self.G.bounds.items():
            if k in self.S.bounds and (v[0] > self.S.bounds[k][0] or v[1] < self.S.bounds[k][1]):
                return False
        return True

    def subst_key(self, k):
        def f(x):
            if isinstance(x, tuple):
                if x and all(type(y) is bytes or isinstance(y, tuple) and y and y[0] in ('o', 'lower') for y in x):
                    out = []
                    for y in x:
                        if type(y) is tuple and y[0] == 'o':
                            out.extend(self.inst[y[1]])
                        else:
                            out.append(y)
                    return tuple(out)
                return tuple(f(y) for y in x)
            return x
        return (k[0],) + tuple(f(x) for x in k[1:])

    def opaques(self, x, out):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 'o' and isinstance(x[1], int):
                out.add(x[1])
            else:
                for y in x:
                    self.opaques(y, out)


class _Tok:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n

    def __copy__(self):
        return self


PENDING = _Tok('PENDING')
CALLED = _Tok('CALLED')
ENDPATH = _Tok('ENDPATH')
FALL = _Tok('FALL')


def show(st, segs):
    if segs == '...':
        return '...'
    out = []
    for s in st.norm(segs):
        if type(s) is bytes:
            out.append(s.decode('utf-8', 'backslashreplace'))
        elif s[0] == 'o':
            c = st.cons.get(s[1])
            if c is None:
                out.append('<?>')
                continue
            d = '<'
            if c.chr:
                d += 'char'
            elif c.mn == 1 and c.mx is None:
                d += 'nonempty'
            elif c.mn == c.mx == 1:
                d += 'byte'
            else:
                d += 'text'
            d += str(s[1])
            if c.utf8 is False:
                d += ' non-utf8'
            if c.first is not None and len(c.first) > 200:
                d += ' not starting with ' + ''.join(sorted(chr(x) for x in ALL - c.first))[:6]
            d += '>'
            out.append(d)
        else:
            out.append('{%s}' % (s[0],))
    return ''.join(out)
