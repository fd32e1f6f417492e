"""Reference semantics of a command-line definition, run in lockstep with the analysed code.

The specification is a deterministic automaton over argv tokens. It works on the same abstract
strings as the program under analysis, asks the same kind of questions (`State` predicates, which
refine the path facts), and its state travels with the path, so that loop heads generalise
program and specification together. At every return the program's result is compared with the
automaton's.
"""
from dom import *
from absint import Violation, show
from cli import *
import re
import models as M

HELP_ALTS = object()


class Slot:
    def __init__(self, idx, arg, inst):
        self.idx, self.arg, self.inst = idx, arg, inst
        self.longs = [b'--' + l.encode() for l in ([arg.long] if arg.long else []) + arg.aliases]
        self.shorts = [s.encode() for s in ([arg.short] if arg.short else []) + arg.short_aliases]
        self.desc = arg.desc().encode()


class Inst:
    """One instance of a struct in the tree (the command's own, or flattened)."""

    def __init__(self, comp, struct, node):
        self.struct = struct
        self.slots = {}
        self.flats = {}
        named, pos = struct.args if struct else ([], [])
        self.named = [comp.slot(a, self) for a in named]
        self.pos = [comp.slot(a, self) for a in pos]
        for f in (struct.flats if struct else []):
            self.flats[f.field] = Inst(comp, f.struct, node)

    def scope(self):
        out = list(self.named)
        for f in self.flats.values():
            out += f.scope()
        return out

    def insts(self):
        out = [self]
        for f in self.flats.values():
            out += f.insts()
        return out


class Node:
    """One command in the tree."""

    def __init__(self, comp, struct, parent, name, doc):
        self.id = len(comp.nodes)
        comp.nodes.append(self)
        self.parent, self.name, self.doc = parent, name, doc
        self.inst = Inst(comp, struct, self)
        self.struct = struct
        self.sub = struct.sub if struct else None
        self.children = []
        if self.sub:
            for (ident, kind, st, d), n in zip(self.sub.enum.variants, self.sub.enum.names()):
                self.children.append((n.encode(), Node(comp, st, self, n, d)))
        sc = list(self.inst.scope())
        p = parent
        while p is not None:
            sc += [s for s in p.inst.scope() if s.arg.glob]
            p = p.parent
        self.lookup = sc
        self.pos = self.inst.pos

    def path(self):
        return (self.parent.path() if self.parent else []) + [self]


UNSET = ('unset',)


class Spec:
    """Compiled specification of one definition."""

    def __init__(self, struct, help=True, process=False):
        self.help = help
        self.process = process      # the entry is `Parser::parse`
        self.nodes, self.slots = [], []
        self.root = Node(self, struct, None, None, None)
        self.stats = {}

    def slot(self, arg, inst):
        s = Slot(len(self.slots), arg, inst)
        self.slots.append(s)
        inst.slots[arg.field] = s
        return s

    def init(self):
        return ('arg0', self.root.id, 0, (UNSET,) * len(self.slots), ('none',), ('none',))

    # ----- driving -----
    def at_next(self, ip, st):
        while True:
            sp = self.micro(st, st.spec)
            if sp is None:
                return
            st.spec = sp

    def token(self, st, sp, tok):
        mode, node, pos, vals, aux, a0 = sp
        m = {'arg0': 'arg0tok', 'wait': 'tok', 'val': 'valtok', 'dd': 'ddtok', 'greedy': 'greedytok'}.get(mode)
        if mode == 'term':
            return sp
        if m is None:
            raise Unsupported('token in mode %s' % mode)
        if m == 'arg0tok':
            return ('wait', node, pos, vals, ('none',), ('S', tok))
        if m == 'valtok':
            return (m, node, pos, vals, aux + (('S', tok),), a0)
        if m == 'greedytok':
            return (m, node, pos, vals, aux + (('S', tok),), a0)
        return (m, node, pos, vals, (('S', tok),), a0)

    def end(self, st, sp):
        mode, node, pos, vals, aux, a0 = sp
        if mode == 'term':
            return sp
        if mode == 'arg0':
            return self.err(sp, 'noarg0', None, None)
        if mode == 'val':
            return self.err(sp, 'missingval', aux[0], None)
        if mode in ('wait', 'dd', 'greedy'):
            return ('end', node, pos, vals, ('none',), a0)
        raise Unsupported('end in mode %s' % mode)

    def err(self, sp, kind, slot, inp, src='no'):
        return ('term', sp[1], sp[2], sp[3], ('err', kind, -1 if slot is None else slot, ('none',) if inp is None else ('S', inp), src), sp[5])

    def micro(self, st, sp):
        mode = sp[0]
        if mode in ('arg0', 'wait', 'val', 'dd', 'greedy', 'term', 'end'):
            return None
        r = getattr(self, 'm_' + mode)(st, sp)
        # every mode change is progress
        return r

    # ----- one token -----
    def m_tok(self, st, sp):
        _, nid, pos, vals, aux, a0 = sp
        tok = st.norm(aux[0][1])
        node = self.nodes[nid]
        if not st.first_is(tok, 45):
            return self.free(st, sp, tok)
        tok = st.norm(tok)
        r1 = st.drop1(tok)
        if st.is_empty(r1):
            return self.free(st, sp, tok)
        if st.first_is(r1, 45):
            tok = st.norm(tok)
            r2 = st.drop1(st.drop1(tok))
            if st.is_empty(r2):
                n = len(node.pos)
                if n and node.pos[-1].arg.last:
                    pos = n - 1
                return ('dd', nid, pos, vals, ('none',), a0)
            sv = st.find_split(tok, 61)
            name, val = (st.norm(tok), None) if sv is None else sv
            for s in node.lookup:
                for l in s.longs:
                    if st.eq(name, l and (l,)):
                        return self.named(st, sp, s, None if val is None else ('eq', val), ('wait', ('none',)))
            if self.help and st.eq(name, (b'--help',)):
                return ('term', nid, pos, vals, ('help',), a0)
            return self.err(sp, 'unknown', None, name)
        # short bundle
        v, inv, rest = st.utf8_split(r1)
        return ('bundle', nid, pos, vals, (('S', v), ('S', inv + rest)), a0)

    def m_bundle(self, st, sp):
        _, nid, pos, vals, aux, a0 = sp
        v, bad = st.norm(aux[0][1]), st.norm(aux[1][1])
        node = self.nodes[nid]
        r = st.pop_char(v)
        if r is None:
            if not bad:
                return ('wait', nid, pos, vals, ('none',), a0)
            return self.err(sp, 'unknown', None, (b'-',) + bad)
        ch, rest = r
        after = st.norm(rest + bad)
        for s in node.lookup:
            for c in s.shorts:
                if st.eq(ch, (c,)):
                    if st.is_empty(after):
                        inline = None
                    elif st.first_is(after, 61):
                        inline = ('eq', st.drop1(after))
                    else:
                        inline = ('amb', after)
                    return self.named(st, sp, s, inline, ('bundle', (('S', st.norm(rest)), ('S', bad))))
        if self.help and st.eq(ch, (b'h',)):
            return ('term', nid, pos, vals, ('help',), a0)
        return self.err(sp, 'unknown', None, (b'-',) + ch)

    def named(self, st, sp, s, inline, cont):
        """A named argument; `cont`: how the token continues when the tail is not consumed."""
        _, nid, pos, vals, aux, a0 = sp
        a = s.arg
        if a.kind == 'flag':
            if inline is not None and inline[0] == 'eq':
                return self.err(sp, 'inlineval', s.idx, inline[1])
            if vals[s.idx] != UNSET:
                return self.err(sp, 'dup', s.idx, None)
            return (cont[0], nid, pos, self.put(vals, s.idx, ('set',)), cont[1], a0)
        if a.kind == 'oo':
            if inline is not None and inline[0] == 'eq':
                return ('apply', nid, pos, vals, (s.idx, ('S', inline[1])), a0)
            if inline is not None:
                return self.err(sp, 'misseq', s.idx, None)
            if vals[s.idx] != UNSET:
                return self.err(sp, 'dup', s.idx, None)
            return (cont[0], nid, pos, self.put(vals, s.idx, ('oo', ('none',))), cont[1], a0)
        if inline is not None and inline[0] == 'eq':
            return ('apply', nid, pos, vals, (s.idx, ('S', inline[1])), a0)
        if a.req_eq:
            return self.err(sp, 'misseq', s.idx, None)
        if inline is None:
            return ('val', nid, pos, vals, (s.idx,), a0)
        return ('apply', nid, pos, vals, (s.idx, ('S', inline[1])), a0)

    def m_valtok(self, st, sp):
        """The token after an option that needs a value."""
        _, nid, pos, vals, aux, a0 = sp
        s = self.slots[aux[0]]
        tok = st.norm(aux[1][1])
        ok = True
        if s.arg.hyphen != 'any' and st.first_is(tok, 45):
            tok = st.norm(tok)
            rest = st.drop1(tok)
            if not st.is_empty(rest):
                ok = s.arg.hyphen == 'num' and st.all_bytes(rest, DIGITS)
        if not ok:
            return self.err(sp, 'missingval', s.idx, None)
        return ('apply', nid, pos, vals, (s.idx, ('S', tok)), a0)

    def m_apply(self, st, sp):
        """Give a value to an argument and go on to the next token."""
        _, nid, pos, vals, aux, a0 = sp
        s = self.slots[aux[0]]
        val = st.norm(aux[1][1])
        a = s.arg
        if a.kind in ('val', 'opt', 'oo') and vals[s.idx] != UNSET:
            return self.err(sp, 'dup', s.idx, None)
        if a.lower:
            val = st.lower(val)
        if a.multi and a.delim:
            v = vals[s.idx] if vals[s.idx] != UNSET else ('vec', ('V', None, ()))
            return ('split', nid, pos, self.put(vals, s.idx, v), (s.idx, ('S', val)) + aux[2:], a0)
        r = self.conv(st, a.ty, val)
        if r[0] == 'err':
            return self.err(sp, 'invalid', s.idx, val, r[1])
        if a.multi:
            old = vals[s.idx][1] if vals[s.idx] != UNSET else ('V', None, ())
            new = ('vec', ('V', old[1], old[2] + (r[1],)))
        elif a.kind == 'oo':
            new = ('oo', r[1])
        else:
            new = ('val', r[1])
        return self.after(('x', nid, pos, self.put(vals, s.idx, new), aux, a0), s)

    def after(self, sp, s):
        _, nid, pos, vals, aux, a0 = sp
        a = s.arg
        if a.named:
            return ('wait', nid, pos, vals, ('none',), a0)
        if a.trailing:
            return ('greedy', nid, pos, vals, (s.idx,), a0)
        isdd = len(aux) > 2
        return ('dd' if isdd else 'wait', nid, pos, vals, ('none',), a0)

    def m_split(self, st, sp):
        _, nid, pos, vals, aux, a0 = sp
        s = self.slots[aux[0]]
        rest = st.norm(aux[1][1])
        d = s.arg.delim.encode()
        c = st.find_split(rest, d[0]) if len(d) == 1 else st.find_char(rest, d)
        piece, rest2 = (st.norm(rest), None) if c is None else c
        r = self.conv(st, s.arg.ty, piece)
        if r[0] == 'err':
            return self.err(sp, 'invalid', s.idx, piece, r[1])
        old = vals[s.idx][1]
        vals = self.put(vals, s.idx, ('vec', ('V', old[1], old[2] + (r[1],))))
        if rest2 is None:
            return self.after(('x', nid, pos, vals, aux, a0), s)
        return ('split', nid, pos, vals, (s.idx, ('S', rest2)) + aux[2:], a0)

    def m_greedytok(self, st, sp):
        _, nid, pos, vals, aux, a0 = sp
        return ('apply', nid, pos, vals, aux, a0)

    def m_ddtok(self, st, sp):
        return self.positional(st, sp, st.norm(sp[4][0][1]), True)

    def free(self, st, sp, tok):
        _, nid, pos, vals, aux, a0 = sp
        node = self.nodes[nid]
        for n, c in node.children:
            if st.eq(tok, (n,)):
                return ('wait', c.id, 0, vals, ('none',), a0)
        return self.positional(st, sp, tok, False)

    def positional(self, st, sp, tok, dd):
        _, nid, pos, vals, aux, a0 = sp
        node = self.nodes[nid]
        if pos < len(node.pos) and (dd or not node.pos[pos].arg.last):
            s = node.pos[pos]
            if not s.arg.multi:
                pos += 1
            return ('apply', nid, pos, vals, (s.idx, ('S', tok)) + (('dd',) if dd else ()), a0)
        if node.sub:
            return self.err(sp, 'unksub', None, tok)
        return self.err(sp, 'extra', None, tok)

    @staticmethod
    def put(vals, i, v):
        return vals[:i] + (v,) + vals[i + 1:]

    # ----- conversions -----
    def conv(self, st, ty, segs):
        k = ty.kind
        segs = st.norm(segs)
        if k == 'osstring':
            return ('ok', ('O', segs))
        if k == 'fromos':
            if M.conv_ok(st, ty.name, segs):
                return ('ok', ('X', ty.name, st.norm(segs)))
            return ('err', 'user')
        if not st.utf8(segs):
            return ('err', 'utf8')
        segs = st.norm(segs)
        if k == 'string':
            return ('ok', ('O', segs))
        if k == 'fromstr':
            if M.conv_ok(st, ty.name, segs):
                return ('ok', ('X', ty.name, st.norm(segs)))
            return ('err', 'user')
        if k == 'int':
            if all(type(x) is bytes for x in segs):
                b = b''.join(segs).decode()
                if re.fullmatch(r'\+?[0-9]+', b) and int(b) < 1 << 32:
                    return ('ok', int(b))
                return ('err', 'std')
            if st.atom(ty.name, segs):
                return ('ok', ('X', ty.name, st.norm(segs)))
            return ('err', 'std')
        if k == 'enum':
            for i, n in enumerate(ty.variants):
                if st.eq(segs, (n.encode(),) if n else ()):
                    return ('ok', ('A', None, i, ()))
            return ('err', 'no')
        raise Unsupported('conversion ' + k)

    # ----- end of input -----
    def final_errors(self, sp):
        """All unmet requirements of the selected commands: list of error-text alternatives."""
        _, nid, pos, vals, aux, a0 = sp
        out = []
        path = self.nodes[nid].path()
        for i, n in enumerate(path):
            subset = i + 1 < len(path)
            for inst in n.inst.insts():
                own = inst is n.inst
                total = sum(vals[s.idx] != UNSET for s in inst.slots.values()) + (1 if own and subset else 0)
                for s in inst.slots.values():
                    a = s.arg
                    if vals[s.idx] != UNSET:
                        if a.exclusive and total > 1:
                            out.append(('exclusive', s.desc))
                        for d in a.requires:
                            if vals[inst.slots[d].idx] == UNSET:
                                out.append(('requires', inst.slots[d].desc))
                        if any(vals[inst.slots[d].idx] != UNSET for d in a.conflicts):
                            out.append(('conflicts', s.desc))
                    elif a.must:
                        out.append(('required', s.desc))
            if n.sub and not n.sub.optional and not subset:
                out.append(('nosub', None))
        return out

    # ----- the result -----
    def value(self, vals, s):
        a, v = s.arg, vals[s.idx]
        if v == UNSET:
            if a.default_t is not None:
                d = a.default_t[1]
                return {'opt': lambda: some(d), 'oo': lambda: some(d), 'optvec': lambda: some(d)}.get(a.kind, lambda: d)()
            if a.default is not None:
                fr = a.default.split(a.delim) if a.delim else [a.default]
                if a.kind == 'flag':
                    return a.default == 'true'
                items = [self.lit(a.ty, x) for x in fr]
                if a.kind in ('vec', 'optvec'):
                    d = ('V', None, tuple(items))
                    return some(d) if a.kind == 'optvec' else d
                return {'val': lambda: items[0], 'opt': lambda: some(items[0]), 'oo': lambda: some(some(items[0]))}[a.kind]()
            return {'flag': False, 'opt': NONE_, 'oo': NONE_, 'vec': ('V', None, ()), 'optvec': NONE_}[a.kind]
        if a.kind == 'flag':
            return True
        if a.kind == 'oo':
            return some(NONE_ if v[1] == ('none',) else some(v[1]))
        if a.kind in ('opt', 'optvec'):
            return some(v[1])
        return v[1]

    def lit(self, ty, s):
        b = (s.encode(),) if s else ()
        if ty.kind in ('string', 'osstring'):
            return ('O', b)
        if ty.kind in ('fromstr', 'fromos'):
            return ('X', ty.name, b)
        if ty.kind == 'int':
            return int(s)
        return ('A', None, ty.variants.index(s), ())

    def expect(self, path, i, inst, vals):
        """Expected Rust value of a struct instance, fields labelled."""
        fs = []
        if inst.struct is None:
            return ('A', None, 0, ()), []
        for x in inst.struct.items:
            if isinstance(x, Arg):
                fs.append((x.field, self.value(vals, inst.slots[x.field])))
            elif isinstance(x, Flat):
                fs.append((x.field, self.expect(path, i, inst.flats[x.field], vals)))
            else:
                if i + 1 < len(path):
                    ch = path[i + 1]
                    j = [c.id for _, c in path[i].children].index(ch.id)
                    kind = x.enum.variants[j][1]
                    inner = self.expect(path, i + 1, ch.inst, vals)
                    fields = () if kind == 'unit' else ((('0', inner),) if kind == 'tuple' else inner[3])
                    v = ('A', None, j, fields)
                    fs.append((x.field, some(('sub', v)) if x.optional else ('sub', v)))
                else:
                    fs.append((x.field, NONE_))
        return ('st', inst.struct.name, 0, tuple(fs))

    def on_exit(self, ip, st, code):
        """The process ends inside `Parser::parse`."""
        out, err = (st.norm(st.mem['env'][i][1]) for i in (2, 1))
        if out:
            raise Violation('exit:stdout', 'prints "%s" to standard output before exiting' % show(st, out))
        if code == 0 or not isinstance(code, int):
            raise Violation('exit:status', 'exits with status %s' % (code,))
        if err and type(err[-1]) is bytes and err[-1].endswith(b'\n'):
            err = err[:-1] + ((err[-1][:-1],) if err[-1][:-1] else ())
        self.at_next(ip, st)
        mode, nid, pos, vals, aux, a0 = st.spec
        if mode == 'term' and aux[0] == 'help':
            self.check_help(ip, st, ('O', err), self.nodes[nid], a0)
            return self.ok(ip, st, 'help')
        self.failed(ip, st, err)

    def on_return(self, ip, st, v):
        if self.process:
            self.at_next(ip, st)
            if st.mem['env'][1][1] or st.mem['env'][2][1]:
                raise Violation('exit:returned', 'prints and returns')
            if st.spec[0] == 'term' or st.spec[0] == 'end' and self.final_errors(st.spec):
                raise Violation('exit:returned', 'returns although the command line is no good')
            v = ('A', None, 0, (v,))
        if not isinstance(v, tuple) or v[0] != 'A':
            raise Unsupported('result %r' % (v,))
        self.at_next(ip, st)
        sp = st.spec
        mode, nid, pos, vals, aux, a0 = sp
        self.stats[(mode, aux[0] if mode == 'term' else '', aux[1] if mode == 'term' and aux[0] == 'err' else '', v[2])] = \
            self.stats.get((mode, aux[0] if mode == 'term' else '', aux[1] if mode == 'term' and aux[0] == 'err' else '', v[2]), 0) + 1
        if v[2] == 0:
            if mode == 'term':
                if aux[0] == 'help':
                    raise Violation('accept:help', 'help was requested, but a value is returned')
                raise Violation('accept:' + aux[1], 'accepted a command line on which %s' % self.tell(aux))
            if mode != 'end':
                raise Violation('unread', 'returned a value without reading all arguments')
            fe = self.final_errors(sp)
            if fe:
                raise Violation('accept:' + fe[0][0], 'returned a value although %s' % self.tell_final(fe[0]))
            path = self.nodes[nid].path()
            self.compare(ip, st, v[3][0], self.expect(path, 0, path[0].inst, vals), path[0].inst.struct.name)
            self.ok(ip, st, 'ok')
            return
        if v[2] == 1:
            if not (mode == 'term' and aux[0] == 'help'):
                raise Violation('help:unasked', 'help is produced on a command line which does not ask for it')
            self.check_help(ip, st, v[3][0], self.nodes[nid], a0)
            self.ok(ip, st, 'help')
            return
        text = v[3][0]
        if text[0] != 'O':
            raise Unsupported('error text %r' % (text[0],))
        if v[3][1] is not self.failed(ip, st, st.norm(text[1])):
            raise Violation('text:source', 'error "%s" has %s underlying source' % (show(st, st.norm(text[1])), 'an unexpected' if v[3][1] else 'no'))

    def failed(self, ip, st, text):
        """An error with this text is reported. True if it must have a source."""
        mode, nid, pos, vals, aux, a0 = st.spec
        sp = st.spec
        shown = show(st, text)
        if mode == 'term' and aux[0] == 'help':
            raise Violation('help:missing', 'help was requested, but the error "%s" is returned' % shown)
        if mode == 'term':
            _, kind, si, inp, src = aux
            alts = self.err_texts(st, kind, None if si < 0 else self.slots[si], None if inp == ('none',) else st.norm(inp[1]), src)
            srcb = src in ('user', 'utf8', 'std')
        elif mode == 'end':
            fe = self.final_errors(sp)
            if not fe:
                raise Violation('reject', 'a valid command line is rejected with "%s"' % shown)
            alts = []
            for k, d in fe:
                alts.append((FINAL[k] % {b'd': d or b''},))
            kind, srcb = 'final', False
        else:
            raise Violation('reject', 'rejected with "%s" before reading all arguments, with nothing wrong so far' % shown)
        for alt in alts:
            if self.text_is(st, text, alt):
                break
        else:
            raise Violation('text:' + kind, 'reports "%s"; expected "%s"' % (shown, show(st, tuple(x if x is not ANYT else b'...' for x in alts[0]))))
        self.ok(ip, st, 'err:' + kind)
        return srcb

    def ok(self, ip, st, kind):
        ip.results.append(('return', kind, '', None))

    def err_texts(self, st, kind, s, inp, src):
        descs = [] if s is None else ([s.desc] if s.arg.named else [s.desc, b'<unknown argument>'])
        i = () if inp is None else (('dbg', inp),)
        if kind == 'noarg0':
            return [(b'missing executable argument (argv[0])',)]
        if kind in ('unknown', 'extra'):
            return [(b'unexpected argument ',) + i]
        if kind == 'unksub':
            return [(b'unrecognized subcommand ',) + i]
        out = []
        for d in descs:
            if kind == 'dup':
                t = (b"the argument '" + d + b"' cannot be used multiple times",)
            elif kind == 'inlineval':
                t = (b'unexpected value ',) + i + (b" for '" + d + b"'",)
            elif kind == 'missingval':
                t = (b"a value is required for '" + d + b"' but none was supplied",)
            elif kind == 'misseq':
                t = (b"equal sign is needed when assigning values for '" + d + b"'",)
            elif kind == 'invalid':
                t = (b'invalid value ',) + i + (b" for '" + d + b"'",)
                if src == 'user':
                    t += (b': ', ('disp', s.arg.ty.name + '_err', inp))
                elif src != 'no':
                    t += (b': ', ANYT)
                if s.arg.ty.kind == 'enum':
                    t += (b'\n  [possible values: ' + ', '.join(s.arg.ty.variants).encode() + b']',)
            out.append(t)
        return out

    def text_is(self, st, text, alt):
        a = [sort_values(x) for x in st.norm(tuple(x for x in text))]
        alt = tuple(sort_values(x) for x in alt)
        if ANYT in alt:
            k = alt.index(ANYT)
            pre, post = list(st.norm(alt[:k])), list(st.norm(alt[k + 1:]))
            # prefix
            for x in pre:
                if not a:
                    return False
                if type(x) is bytes:
                    if type(a[0]) is not bytes or not a[0].startswith(x):
                        return False
                    a[0] = a[0][len(x):]
                    if not a[0]:
                        a.pop(0)
                else:
                    if type(a[0]) is bytes or a[0][0] != x[0] or not self.seg_eq(st, a[0], x):
                        return False
                    a.pop(0)
            if not a:
                return False
            if post:
                return type(a[-1]) is bytes and a[-1].endswith(post[-1])
            return True
        b = list(st.norm(alt))
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if type(x) is bytes or type(y) is bytes:
                if x != y:
                    return False
            elif x != y and not self.seg_eq(st, x, y):
                return False
        return True

    def seg_eq(self, st, x, y):
        if x[0] != y[0]:
            return False
        if x[0] == 'dbg':
            return st.eq(x[1], y[1])
        if x[0] == 'disp':
            return x[1] == y[1] and st.eq(x[2], y[2])
        return x == y

    def compare(self, ip, st, got, want, where):
        v = ip.peel_value(st, got)
        if not isinstance(want, tuple):
            pass
        elif want[0] == 'st':
            fs = want[3]
            if not (isinstance(v, tuple) and v[0] == 'A'):
                raise Unsupported('result struct %r' % (v,))
            if len(v[3]) != len(fs):
                raise Unsupported('fields of %s' % where)
            for x, (n, w) in zip(v[3], fs):
                self.compare(ip, st, x, w, '%s.%s' % (where, n))
            return
        elif want[0] == 'sub':
            w = want[1]
            if v[2] != w[2]:
                raise Violation('value:sub', '%s holds subcommand #%d, expected #%d' % (where, v[2], w[2]))
            for x, (n, y) in zip(v[3], w[3]):
                self.compare(ip, st, x, y, '%s#%d.%s' % (where, w[2], n))
            return
        elif want[0] == 'some' or want == NONE_:
            has = want != NONE_
            if not (isinstance(v, tuple) and v[0] == 'A'):
                raise Unsupported('option %r' % (v,))
            if (v[2] == 1) != has:
                raise Violation('value:' + where, '%s is %s, expected %s' % (where, 'Some' if v[2] else 'None', 'Some' if has else 'None'))
            if has:
                self.compare(ip, st, v[3][0], want[1], where)
            return
        if not self.same(ip, st, v, want):
            raise Violation('value:' + where, '%s is %s, expected %s' % (where, self.pv(st, v), self.pv(st, want)))

    def same(self, ip, st, a, b):
        a = ip.peel_value(st, a)
        if isinstance(a, bool) or isinstance(b, bool) or isinstance(a, int) or isinstance(b, int):
            return a is b or (not isinstance(a, bool) and not isinstance(b, bool) and a == b)
        if a[0] in ('O', 'S') and b[0] in ('O', 'S'):
            return st.eq(a[1], b[1])
        if a[0] != b[0]:
            return False
        if a[0] == 'X':
            if a[1] != b[1]:
                return False
            if a[1] == '?':
                return a == b
            return st.eq(a[2], b[2])
        if a[0] == 'A':
            return a[2] == b[2] and len(a[3]) == len(b[3]) and all(self.same(ip, st, x, y) for x, y in zip(a[3], b[3]))
        if a[0] == 'V':
            return a[1] == b[1] and len(a[2]) == len(b[2]) and all(self.same(ip, st, x, y) for x, y in zip(a[2], b[2]))
        raise Unsupported('compare %r' % (a[0],))

    def pv(self, st, v):
        if isinstance(v, (int, bool)):
            return str(v)
        if v[0] in ('O', 'S'):
            return '"%s"' % show(st, v[1])
        if v[0] == 'X' and v[1] != '?':
            return '%s("%s")' % (v[1], show(st, v[2]))
        if v[0] == 'V':
            return '[%s%s]' % ('..., ' if v[1] is not None else '', ', '.join(self.pv(st, x) for x in v[2]))
        if v[0] == 'A':
            return '#%d(%s)' % (v[2], ', '.join(self.pv(st, x) for x in v[3]))
        return repr(v[:2])

    def tell(self, aux):
        if aux[0] != 'err':
            return aux[0]
        s = '' if aux[2] < 0 else ' for %s' % self.slots[aux[2]].desc.decode()
        return ERRS[aux[1]] + s

    def tell_final(self, e):
        return {'exclusive': 'the exclusive argument %s is not alone', 'requires': '%s, which another argument requires, is absent',
                'conflicts': 'an argument in conflict with %s is present', 'required': 'the required %s is absent',
                'nosub': 'the required subcommand is absent%.0s'}[e[0]] % (e[1].decode() if e[1] else '')

    # ----- help text -----
    def check_help(self, ip, st, text, node, a0):
        lits = []
        for s in st.norm(text[1]):
            lits.append(s if type(s) is bytes else b'\0')
        t = b''.join(lits).decode()
        bad = help_problem(node, t)
        if bad:
            raise Violation('help:' + bad[0], 'the help text of %s %s' % (self.cmdname(node), bad[1]))

    def cmdname(self, node):
        return 'command ' + ' '.join(['main'] + [n.name for n in node.path()[1:]])


def sort_values(x):
    """The order in which possible values are listed is of no importance."""
    if type(x) is not bytes:
        return x
    return re.sub(rb'(\[possible values: )(.*)(\])', lambda m: m.group(1) + b', '.join(sorted(m.group(2).split(b', '))) + m.group(3), x, flags=re.S)


NONE_ = ('none',)
ANYT = ('anytext',)


def some(x):
    return ('some', x)


FINAL = {'exclusive': b"the argument '%(d)s' cannot be used with one or more of the other specified arguments",
         'requires': b"the argument '%(d)s' is required because some dependency arguments are provided",
         'conflicts': b"the argument '%(d)s' cannot be used with some other arguments",
         'required': b"the argument '%(d)s' is required but not provided",
         'nosub': b'the subcommand is required but not provided%(d).0s'}
ERRS = {'unknown': 'an argument is unknown', 'extra': 'there is an extra positional argument', 'unksub': 'the subcommand does not exist',
        'dup': 'there is a repeat', 'inlineval': 'a value is given to a flag', 'missingval': 'a value is missing', 'misseq': 'the required `=` is missing',
        'invalid': 'a value is invalid', 'noarg0': 'argv is empty'}


def help_problem(node, t):
    """(kind, what is wrong) of the help text `t` of a command; unknown text is shown as NUL."""
    u = re.search(r'^Usage:(.*)$', t, re.M)
    if not u:
        return 'usage', 'has no usage line'
    cmd = ' \0' + ''.join(' ' + n.name for n in node.path()[1:])
    if not (u.group(1) + ' ').startswith(cmd + ' '):
        return 'cmd', 'does not name the command being parsed in its usage line'
    bad = check_usage(node, u.group(1)[len(cmd):])
    if bad:
        return 'usage', bad
    # about
    d = node.doc or (node.struct.about if node.struct else None)
    head = t[:u.start()]
    for l in (d or '').split('\n'):
        if l.strip() not in head:
            return 'about', 'lacks its description %r before the usage line' % l.strip()
    if not d and head.strip():
        return 'about', 'starts with %r, which is no description of it' % head.strip()
    # sections
    rest = t[u.end():]
    sect, cur = {}, None
    after = node.struct and node.struct.after
    body = rest[:-len(after.rstrip()) or None] if after and (rest := rest.rstrip()).endswith(after.rstrip()) else rest
    for l in body.split('\n'):
        if l in ('Commands:', 'Arguments:', 'Options:'):
            if l in sect:
                return 'layout', 'has two sections %r' % l
            cur = sect[l] = []
        elif cur is not None:
            cur.append(l)
    named, pos, hidden = [], [], []
    for inst in node.inst.insts():
        for x in inst.named + inst.pos:
            (hidden if x.arg.hide else named if x in inst.named else pos).append(x)
    for nm, want in (('Arguments:', pos), ('Options:', named)):
        if bool(want) != (nm in sect):
            x = want[0] if want else None
            return ('arg' if want else 'layout'), ('lacks the section %r' if want else 'has an empty section %r') % nm + (' with %r' % x.desc.decode() if want else '')
        bad = check_entries(sect.get(nm, []), want, [x for x in named + pos + hidden], hidden)
        if bad:
            return bad
    if bool(node.sub) != ('Commands:' in sect):
        return 'sub', 'lacks its subcommands' if node.sub else 'has a section of subcommands'
    if node.sub:
        got = [l for l in sect['Commands:'] if l.strip()]
        names = [n.decode() for n, c in node.children]
        for l in got:
            w = l.split()[0]
            if not l.startswith('    ') or w not in names:
                return 'sub', 'lists %r under its subcommands' % l
        if len(got) != len(names):
            return 'sub', 'lists %d subcommands instead of %d' % (len(got), len(names))
        for n, c in node.children:
            l = [x for x in got if x.split()[0] == n.decode()]
            if len(l) != 1:
                return 'sub', 'does not list the subcommand %r once' % n.decode()
            d = (c.doc or (c.struct.about if c.struct else None) or '').split('\n')[0]
            if l[0].split(None, 1)[1:] != ([d] if d else []):
                return 'subdoc', 'shows %r beside the subcommand %r instead of %r' % (l[0], n.decode(), d)
    for x in hidden:
        if any(re.search(r'(?<![\w-])' + re.escape(d) + r'(?![\w.-])', t) for d in [x.desc.decode()] + (['--' + x.arg.long] if x.arg.long else [])):
            return 'hidden', 'mentions the hidden %r' % x.desc.decode()
        if x.arg.doc and x.arg.doc in t and not any(x.arg.doc in (y or '') for y in [z.arg.doc for z in named + pos] + [node.doc, node.struct and node.struct.about, node.struct and node.struct.after] + [z.doc for _, z in node.children]):
            return 'hidden', 'shows the description of the hidden %r' % x.desc.decode()
    if node.struct and node.struct.after and node.struct.after.rstrip() not in rest:
        return 'after', 'lacks its closing text %r' % node.struct.after
    return None


def check_entries(lines, want, everything, hidden):
    """The entries of a section and what belongs to each of them."""
    blocks, cur = [], None
    for l in lines:
        if re.match(r'  (?:<|\[|-)|      --', l):
            cur = (l.strip(), [])
            blocks.append(cur)
        elif cur is not None:
            cur[1].append(l)
    descs = [x.desc.decode().strip() for x in want]
    for d, _ in blocks:
        if d not in descs:
            h = any(x.desc.decode().strip() == d for x in hidden)
            return 'hidden' if h else 'alien', 'lists %r, which is %s' % (d, 'hidden' if h else 'no argument of it as declared')
    for x in want:
        d = x.desc.decode().strip()
        mine = [b for e, b in blocks if e == d]
        if len(mine) < descs.count(d):
            return 'arg', 'does not list %r' % d
        if len(mine) > descs.count(d):
            return 'arg', 'lists %r more than once' % d
        if len(mine) > 1:
            continue
        block = '\n'.join(mine[0])
        for l in (x.arg.doc or '').split('\n'):
            if l.strip() not in block:
                return 'doc', 'lacks the description %r of %r' % (l.strip(), d)
        for y in everything:
            if y is not x and y.arg.doc and y.arg.doc not in (x.arg.doc or '') and y.arg.doc in block:
                return 'doc', 'describes %r as %r' % (d, y.arg.doc)
        df = shown_default(x.arg)
        if df is None:
            if '[default' in block:
                return 'default', 'shows a default for %r, which has none' % d
        elif ('[default: %s]' % df) not in block:
            return 'default', 'lacks the default %r of %r' % (df, d)
    return None


def shown_default(a):
    if a.default is not None:
        return a.default
    if a.default_t is not None:
        return a.default_shown or '\0'
    return None


def check_usage(node, us):
    named, pos = [], []
    for inst in node.inst.insts():
        named += [s for s in inst.named if not s.arg.hide]
        pos += [s for s in inst.pos if not s.arg.hide]
    for s in named + pos:
        d = s.desc.decode()
        if not s.arg.must and (s.arg.named or not (s.arg.multi or s.arg.last)):
            continue        # only required and variable-length arguments are spelt out
        if s.arg.named:
            d = ('--' + s.arg.long if s.arg.long else '-' + s.arg.short) + re.sub(r'^.*?(?=\[=<|=<| <|$)', '', d)
        if d not in us:
            return 'lacks %s in its usage line: %r' % (d, us)
    for inst in node.inst.insts():
        for s in inst.named + inst.pos:
            if s.arg.hide and (s.desc.decode() in us or s.arg.long and re.search('--' + re.escape(s.arg.long) + r'(?![\w.-])', us)):
                return 'shows the hidden %r in its usage line' % s.desc.decode()
    opt = any(not s.arg.must for s in named)
    if opt != ('[OPTIONS]' in us):
        return ('lacks' if opt else 'wrongly shows') + ' [OPTIONS] in its usage line'
    if node.sub:
        w = '[COMMAND]' if node.sub.optional else '<COMMAND>'
        if w not in us:
            return 'lacks %s in its usage line' % w
    elif 'COMMAND' in us:
        return 'mentions a subcommand in its usage line'
    return None
