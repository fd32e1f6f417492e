"""Generated definitions: small random members of each class of definition the macros accept.

The family is fixed (a definition is a function of its class and number), so that runs are comparable."""
import random
from cli import *
from suite import SUITE, MODE, CB, CA

LONGS = ['all', 'all-of', 'al', 'a', 'b', 'x', 'no', 'no-', 'Name', 'name', 'naïve', 'e.f', 'v1', '1', 'h', 'hel', 'help-me', 'o', 'out', 'output', 'k_v', 'ab']
SHORTS = ['a', 'b', 'A', 'x', 'X', 'é', '1', '?', 'o', 'n', 'H', '日', '"', 'l']
NAMES = ['alpha', 'beta', 'gamma_ray', 'd', 'r#type', 'x1', 'file', '_hid', 'kappa', 'longest_name_of_all']
LOW = VEnum('Low', [('One', None), ('OneTwo', None), ('on', 'on!')])
CLASSES = ('named', 'pos', 'con', 'flat', 'sub', 'glob', 'help', 'def')


class G:
    def __init__(self, cls, n):
        self.r = random.Random('%s/%d' % (cls, n))
        self.cls = cls
        self.uid = 0

    def p(self, x):
        return self.r.random() < x

    def one(self, xs):
        return self.r.choice(xs)

    def scope(self):
        """Names which are free in one struct."""
        ls, ss, fs = LONGS[:], SHORTS[:], NAMES[:]
        for x in (ls, ss, fs):
            self.r.shuffle(x)
        return dict(l=ls, s=ss, f=fs)

    def ty(self, kind, lower=False):
        if lower:
            return LOW
        return self.one([V] * 6 + [STRING, OSSTRING, U32, MODE])

    def names(self, sc, k):
        m = self.r.random()
        if m < .45:
            k['long'] = sc['l'].pop()
        elif m < .75:
            k['short'] = sc['s'].pop()
        else:
            k['long'], k['short'] = sc['l'].pop(), sc['s'].pop()
        if self.p(.2):
            k['aliases'] = [sc['l'].pop() for _ in range(self.one([1, 1, 2]))]
        if self.p(.15):
            k['short_aliases'] = [sc['s'].pop() for _ in range(self.one([1, 1, 2]))]

    def common(self, kind, k, docs):
        if docs and self.p(.6):
            k['doc'] = self.one(['Short.', 'A longer sentence.', 'First.\n\nSecond par.', 'Ünï.'])
            if self.p(.2):
                k['help_attr'] = self.one([True, 'long_help'])
        if docs and self.p(.2):
            k['hide'] = True
        if kind != 'flag' and self.p(.1):
            k['value_name'] = self.one(['X', 'some thing', 'É'])

    def named(self, sc, kinds=('flag', 'val', 'opt', 'oo', 'vec', 'optvec'), glob=0, docs=False, defaults=.15):
        kind = self.one(kinds)
        k = {}
        self.names(sc, k)
        lower = kind != 'flag' and self.p(.06)
        if kind != 'flag':
            k['ty'] = self.ty(kind, lower)
            k['lower'] = lower
        if kind == 'oo' or kind != 'flag' and self.p(.2):
            k['req_eq'] = True
        elif kind != 'flag' and self.p(.25):
            k['hyphen'] = self.one(['any', 'num'])
        if kind in ('vec', 'optvec') and self.p(.35):
            k['delim'] = self.one([',', ',', ':', ' ', 'é'])
        if self.p(glob):
            k['glob'] = True
        if self.p(defaults):
            self.default(kind, k)
        elif kind not in ('val',) and self.p(.12):
            k['required'] = True
        self.common(kind, k, docs)
        return Arg(sc['f'].pop(), kind, **k)

    def default(self, kind, k):
        t = k.get('ty', V)
        if kind == 'flag':
            b = self.one(['true', 'false'])
            if self.p(.5):
                k['default'] = b
            else:
                k.update(default_t=(b, b == 'true'), default_shown=b)
        elif kind in ('val', 'opt') and t is V and self.p(.4):
            k['default_t'] = CB
        elif t.kind == 'enum':
            k['default'] = self.one(t.variants) if not k.get('lower') else t.variants[0]
        elif t.kind == 'int':
            k['default'] = '7'
        else:
            k['default'] = self.one(['', 'dflt', '-x', 'a,b'])

    def pos(self, sc, kind, docs=False, last=False):
        k = dict(ty=self.ty(kind))
        if kind in ('vec', 'optvec'):
            if last:
                k['last'] = True
            elif self.p(.25):
                k['trailing'] = True
            if self.p(.15):
                k['delim'] = self.one([',', ':'])
        if self.p(.12):
            self.default(kind, k)
            k.pop('default_t', None)
        elif kind != 'val' and self.p(.15):
            k['required'] = True
        self.common(kind, k, docs)
        return Arg(sc['f'].pop(), kind, **k)

    def positionals(self, sc, most=3, docs=False):
        out = [self.pos(sc, self.one(['val', 'opt', 'val', 'opt']), docs) for _ in range(self.r.randint(0, most - 1))]
        if not out or self.p(.5):
            out.append(self.pos(sc, self.one(['vec', 'optvec']), docs))
        if self.p(.25):
            out.insert(self.r.randint(0, len(out)), self.pos(sc, self.one(['vec', 'optvec']), docs, last=True))
        return out

    def constrain(self, args, n, exclusive=True):
        for _ in range(n):
            a, b = self.one(args), self.one(args)
            w = self.r.random()
            if w < .4:
                a.requires.append(b.bare if b.field == b.bare else b.field)
            elif w < .85:
                if b is not a:
                    a.conflicts.append(b.field)
            elif exclusive:
                a.exclusive = True
        for a in args:
            a.requires[:] = list(dict.fromkeys(a.requires))
            a.conflicts[:] = list(dict.fromkeys(a.conflicts))

    def inner(self, n=2, **k):
        self.uid += 1
        sc = self.scope()
        return Struct('In%d' % self.uid, *[self.named(sc, **k) for _ in range(self.r.randint(1, n))])

    def enum(self, depth=0, docs=False, pos=True):
        idents = ['Go', 'GoTo', 'Add', 'AddMore', 'RemoveEverythingThereIsToRemove', 'R', 'HTTPGet', 'r#type', 'Q2', 'É']
        self.r.shuffle(idents)
        vs = []
        for i in range(self.r.randint(1, 3)):
            kind = self.one(['unit', 'struct', 'tuple'])
            doc = self.one([None, 'Do it.', 'First.\n\nMore.']) if docs and kind != 'tuple' else None
            st = None
            if kind == 'unit':
                st = None
            else:
                self.uid += 1
                sc = self.scope()
                items = [self.named(sc, docs=docs, glob=.2)] if self.p(.6) else []
                if pos and not items and self.p(.7):
                    items = [self.pos(sc, self.one(['val', 'opt', 'vec']), docs)]
                if depth < 1 and self.p(.15):
                    items.append(Sub(sc['f'].pop(), self.enum(depth + 1, docs, pos), optional=self.p(.5)))
                st = Struct('Var%d' % self.uid, *items, **(dict(doc='Of the type.') if kind == 'tuple' and docs and self.p(.5) else {}))
            vs.append((idents[i], kind, st) + ((doc,) if doc else ()))
        self.uid += 1
        return Enum('Cmd%d' % self.uid, *vs)

    def make(self):
        c, sc = self.cls, self.scope()
        items, kw = [], {}
        if c == 'named':
            items = [self.named(sc) for _ in range(self.one([1, 2, 2, 2, 3]))]
            if self.p(.25) and len(items) < 3:
                items.append(self.pos(sc, self.one(['val', 'opt'])))
        elif c == 'pos':
            items = self.positionals(sc)
            if self.p(.6):
                items.insert(self.r.randint(0, len(items)), self.named(sc))
        elif c == 'con':
            items = [self.named(sc, kinds=('flag', 'flag', 'val', 'opt', 'oo', 'vec', 'optvec'), defaults=.25) for _ in range(self.one([1, 2, 2, 3]))]
            if self.p(.4) and len(items) < 3:
                items.append(self.pos(sc, self.one(['val', 'opt', 'vec'])))
            self.constrain(items, self.r.randint(1, 3))
        elif c == 'def':
            items = [self.named(sc, kinds=('flag', 'val', 'val', 'opt', 'oo', 'vec', 'optvec'), defaults=.8) for _ in range(2)]
            if self.p(.5):
                items.append(self.pos(sc, 'val'))
                self.default('val', (d := dict(ty=items[-1].ty)))
                if 'default' in d:
                    items[-1].default = d['default']
            if self.p(.4):
                self.constrain(items, 1)
        elif c == 'flat':
            items = [self.named(sc)] if self.p(.8) else []
            for _ in range(self.one([1, 1, 1, 2])):
                s = self.inner(self.one([1, 1, 2]), defaults=.1)
                if self.p(.3):
                    self.constrain(s.args[0], 1)
                if self.p(.25):
                    self.uid += 1
                    d = self.scope()
                    s = Struct('Deep%d' % self.uid, Flat(d['f'].pop(), s), *([self.named(d)] if self.p(.4) else []))
                items.insert(self.r.randint(0, len(items)), Flat(sc['f'].pop(), s))
            if self.p(.3):
                items.append(self.pos(sc, self.one(['val', 'opt', 'vec'])))
        elif c in ('sub', 'glob'):
            items = [self.named(sc, glob=.3 if c == 'sub' else .7) for _ in range(self.one([0, 1, 1]) if c == 'sub' else 1)]
            if c == 'sub' and self.p(.4):
                items.append(self.pos(sc, self.one(['val', 'opt', 'vec'])))
            if c == 'glob' and self.p(.4):
                items.append(Flat(sc['f'].pop(), self.inner(1, glob=.5)))
            items.append(Sub(sc['f'].pop(), self.enum(pos=c == 'sub'), optional=self.p(.5)))
            if c == 'sub' and self.p(.2):
                a = [x for x in items if isinstance(x, Arg)]
                if a:
                    self.constrain(a, 1)
        elif c == 'help':
            items = [self.named(sc, docs=True) for _ in range(self.r.randint(1, 2))]
            if self.p(.6):
                items += self.positionals(sc, 2, docs=True)
            if self.p(.3):
                items.insert(0, Flat(sc['f'].pop(), self.inner(1, docs=True)))
            elif self.p(.4):
                items.append(Sub(sc['f'].pop(), self.enum(docs=True, pos=False), optional=self.p(.5)))
            if self.p(.5):
                kw['doc'] = self.one(['About.', 'About.\n\nMore about.'])
            if self.p(.3):
                kw['after'] = 'After {} help.'
            if self.p(.2):
                kw['long_about'] = self.one(['Explicit {about}.', True])
        return Struct('Main', *items, **kw)


def get(cls, n):
    name = 'g_%s_%d' % (cls, n)
    if name not in SUITE:
        SUITE[name] = G(cls, n).make()
    return name


def family(classes, per):
    return [get(c, n) for c in classes.split() for n in range(per)]
