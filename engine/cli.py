"""Command-line definitions under analysis: a small description language, from which both the
Rust witness (expanded by the real derive macros and analysed) and the reference automaton
(spec.py) are built."""
import re


def kebab(s):
    """heck::AsKebabCase of a Rust identifier (ASCII)."""
    return '-'.join(w.lower() for w in words(s))


def shouty(s):
    return '_'.join(w.upper() for w in words(s))


def words(s):
    """heck's word splitting."""
    s = s[2:] if s.startswith('r#') else s
    out = []
    for part in re.split(r'[\W_]+', s):
        start, mode = 0, ''
        for i, c in enumerate(part):
            n = part[i + 1] if i + 1 < len(part) else None
            if n is None:
                out.append(part[start:])
                break
            m = 'l' if c.islower() else 'u' if c.isupper() else mode
            if m == 'l' and n.isupper():
                out.append(part[start:i + 1])
                start, mode = i + 1, ''
            elif mode == 'u' and c.isupper() and n.islower():
                if i > start:
                    out.append(part[start:i])
                start, mode = i, ''
            else:
                mode = m
    return out


class Ty:
    """Value type of a field: how the field's own conversion behaves."""

    def __init__(self, rust, kind, name=None, variants=None):
        self.rust, self.kind, self.name, self.variants = rust, kind, name, variants


V = Ty('V', 'fromstr', 'env_parse_V')          # arbitrary FromStr type
W = Ty('W', 'fromos', 'env_parse_W')           # arbitrary TryFrom<&OsStr> type
STRING = Ty('String', 'string')
OSSTRING = Ty('OsString', 'osstring')
PATHBUF = Ty('PathBuf', 'osstring')
U32 = Ty('u32', 'int', 'parse_u32')


def bare(s):
    return s[2:] if s.startswith('r#') else s


class VEnum(Ty):
    """derive(ValueEnum) type: [(variant ident, explicit name or None)]."""

    def __init__(self, rust, variants, rename=None):
        super().__init__(rust, 'enum')
        self.rename = rename
        self.decl = variants
        self.variants = []
        for ident, explicit in variants:
            if explicit is not None:
                n = explicit
            else:
                w = words(ident)
                r = rename or 'kebab-case'
                n = {'kebab-case': lambda: '-'.join(x.lower() for x in w),
                     'snake_case': lambda: '_'.join(x.lower() for x in w),
                     'SCREAMING_SNAKE_CASE': lambda: '_'.join(x.upper() for x in w),
                     'SCREAMING-KEBAB-CASE': lambda: '-'.join(x.upper() for x in w),
                     'PascalCase': lambda: ''.join(x.capitalize() for x in w),
                     'camelCase': lambda: w[0].lower() + ''.join(x.capitalize() for x in w[1:]),
                     'lower': lambda: bare(ident).lower(), 'UPPER': lambda: bare(ident).upper(),
                     'verbatim': lambda: bare(ident)}[r]()
            self.variants.append(n)

    def decl_rust(self):
        o = '#[derive(palc::ValueEnum)]\n'
        if self.rename:
            o += '#[value(rename_all = "%s")]\n' % self.rename
        o += 'pub enum %s {\n' % self.rust
        for ident, explicit in self.decl:
            if explicit is not None:
                o += '    #[value(name = %s)]\n' % rs(explicit)
            o += '    %s,\n' % ident
        return o + '}\n'


def rs(s):
    return '"' + s.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n') + '"'


def rc(c):
    return "'" + c.replace('\\', '\\\\').replace("'", "\\'") + "'"


class Arg:
    def __init__(self, field, kind, ty=V, long=None, short=None, aliases=(), short_aliases=(), req_eq=False, hyphen=None, delim=None, lower=False,
                 default=None, default_t=None, required=False, exclusive=False, requires=(), conflicts=(), glob=False, trailing=False, last=False,
                 value_name=None, hide=False, doc=None, default_shown=None, help_attr=False, style=0, value_enum=False):
        self.default_shown, self.help_attr, self.style, self.value_enum = default_shown, help_attr, style, value_enum
        self.field, self.kind, self.ty = field, kind, ty
        bare = field[2:] if field.startswith('r#') else field
        self.long_attr, self.short_attr = long, short
        self.long = kebab(bare) if long is True else long
        self.short = bare[0] if short is True else short
        self.aliases, self.short_aliases = list(aliases), list(short_aliases)
        self.req_eq, self.hyphen, self.delim, self.lower = req_eq, hyphen, delim, lower
        self.default, self.default_t, self.required = default, default_t, required
        self.exclusive, self.requires, self.conflicts, self.glob = exclusive, list(requires), list(conflicts), glob
        self.trailing, self.last, self.value_name, self.hide, self.doc = trailing, last, value_name, hide, doc
        self.named = bool(self.long or self.short or self.aliases or self.short_aliases)
        self.bare = bare

    @property
    def must(self):
        return self.default is None and self.default_t is None and (self.required or self.kind == 'val')

    @property
    def takes_value(self):
        return self.kind in ('val', 'opt', 'vec', 'optvec')

    @property
    def multi(self):
        return self.kind in ('vec', 'optvec')

    def desc(self):
        vn = self.value_name or shouty(self.bare)
        if self.named:
            d = []
            if self.short:
                d.append('-' + self.short)
            if self.long:
                d.append('--' + self.long)
            d = ', '.join(d)
            if self.kind == 'oo':
                d += '[=<%s>]' % vn
            elif self.takes_value:
                d += ('=' if self.req_eq else ' ') + '<%s>' % vn
            return d
        d = '<%s>' % vn if self.must else '[%s]' % vn
        return d + ('...' if self.multi else '')

    def rust(self):
        a = []
        if self.long_attr is True:
            a.append('long')
        elif self.long_attr:
            a.append('long = %s' % rs(self.long_attr))
        if self.short_attr is True:
            a.append('short')
        elif self.short_attr:
            a.append('short = %s' % rc(self.short_attr))
        if self.style and self.aliases:
            a += ['alias = %s' % rs(x) for x in self.aliases]
        elif len(self.aliases) == 1:
            a.append('alias = %s' % rs(self.aliases[0]))
        elif self.aliases:
            a.append('aliases = [%s]' % ', '.join(map(rs, self.aliases)))
        if self.style and self.short_aliases:
            a += ['short_aliases = [%s]' % rc(x) for x in self.short_aliases]
        elif len(self.short_aliases) == 1:
            a.append('short_alias = %s' % rc(self.short_aliases[0]))
        elif self.short_aliases:
            a.append('short_aliases = [%s]' % ', '.join(map(rc, self.short_aliases)))
        if self.req_eq:
            a.append('require_equals = true')
        if self.hyphen == 'any':
            a.append('allow_hyphen_values = true')
        if self.hyphen == 'num':
            a.append('allow_negative_numbers = true')
        if self.delim == ',' and self.style:
            a.append('use_value_delimiter = true')
        elif self.delim:
            a.append('value_delimiter = %s' % rc(self.delim))
        if self.lower:
            a.append('ignore_case = true')
        if self.default is not None:
            a.append('default_value = %s' % rs(self.default))
        if self.default_t is not None:
            k = 'default_values_t' if self.multi else 'default_value_t'
            a.append(k if self.default_t[0] is None else k + ' = %s' % self.default_t[0])
        if self.required:
            a.append('required = true')
        if self.exclusive:
            a.append('exclusive = true')
        for r in self.requires:
            a.append('requires = "%s"' % r)
        if self.style and self.conflicts:
            a.append('conflicts_with_all = [%s]' % ', '.join(map(rs, self.conflicts)))
        for r in self.conflicts if not self.style else ():
            a.append('conflicts_with = "%s"' % r)
        if self.glob:
            a.append('global = true')
        if self.trailing:
            a.append('trailing_var_arg = true')
        if self.last:
            a.append('last = true')
        if self.value_name:
            a.append('value_name = %s' % rs(self.value_name))
        if self.hide:
            a.append('hide = true')
        if self.value_enum:
            a.append('value_enum')
        if self.doc and self.help_attr:
            a.append('%s = %s' % ('help' if self.help_attr is True else self.help_attr, rs(self.doc)))
        t = {'flag': 'bool', 'val': '%s', 'opt': 'Option<%s>', 'oo': 'Option<Option<%s>>', 'vec': 'Vec<%s>', 'optvec': 'Option<Vec<%s>>'}[self.kind]
        if '%s' in t:
            t = t % self.ty.rust
        o = ''
        if self.doc and not self.help_attr:
            o += ''.join('    /// %s\n' % l for l in self.doc.split('\n'))
        if a:
            o += '    #[arg(%s)]\n' % ', '.join(a)
        return o + '    pub %s: %s,\n' % (self.field, t)


PKG_DESCRIPTION = 'Description of the package.'


class Flat:
    def __init__(self, field, struct):
        self.field, self.struct = field, struct

    def rust(self):
        return '    #[command(flatten)]\n    pub %s: %s,\n' % (self.field, self.struct.name)


class Sub:
    def __init__(self, field, enum, optional=False):
        self.field, self.enum, self.optional = field, enum, optional

    def rust(self):
        return '    #[command(subcommand)]\n    pub %s: %s,\n' % (self.field, ('Option<%s>' if self.optional else '%s') % self.enum.name)


class Struct:
    def __init__(self, name, *items, doc=None, after=None, long_about=None):
        self.name, self.items, self.doc, self.after, self.long_about = name, items, doc, after, long_about

    @property
    def about(self):
        return PKG_DESCRIPTION if self.long_about is True else self.long_about or self.doc

    @property
    def args(self):
        """Direct arguments in the order the runtime uses."""
        a = [x for x in self.items if isinstance(x, Arg)]
        named = [x for x in a if x.named]
        pos = [x for x in a if not x.named and not x.multi and not x.last]
        var = [x for x in a if not x.named and x.multi and not x.last]
        last = [x for x in a if not x.named and x.last]
        return named, pos + var + last

    @property
    def flats(self):
        return [x for x in self.items if isinstance(x, Flat)]

    @property
    def sub(self):
        for x in self.items:
            if isinstance(x, Sub):
                return x
        return None

    def body(self):
        return '{\n' + ''.join(x.rust() for x in self.items) + '}'

    def meta(self):
        o = ''
        if self.doc:
            o += ''.join('/// %s\n' % l if l else '///\n' for l in self.doc.split('\n'))
        if self.long_about:
            o += '#[command(long_about%s)]\n' % ('' if self.long_about is True else ' = ' + rs(self.long_about))
        if self.after:
            o += '#[command(after_long_help = %s)]\n' % rs(self.after)
        return o

    def decl_rust(self, top):
        return '#[derive(palc::%s)]\n%spub struct %s %s\n' % ('Parser' if top else 'Args', self.meta(), self.name, self.body())


class Enum:
    """derive(Subcommand): variants [(Ident, kind, Struct or None, doc)], kind unit|tuple|struct."""

    def __init__(self, name, *variants):
        self.name = name
        self.variants = [v if len(v) == 4 else tuple(v) + (None,) * (4 - len(v)) for v in variants]

    def names(self):
        return [kebab(v[0]) for v in self.variants]

    def decl_rust(self):
        o = '#[derive(palc::Subcommand)]\npub enum %s {\n' % self.name
        for ident, kind, st, doc in self.variants:
            if doc:
                o += ''.join('    /// %s\n' % l if l else '    ///\n' for l in doc.split('\n'))
            if kind == 'unit':
                o += '    %s,\n' % ident
            elif kind == 'tuple':
                o += '    %s(%s),\n' % (ident, st.name)
            else:
                o += '    %s %s,\n' % (ident, st.body().replace('pub ', ''))
        return o + '}\n'


PRELUDE = '''#![allow(dead_code, unused, non_snake_case, non_camel_case_types)]
use std::error::Error as _;
use std::ffi::{OsStr, OsString};
use std::path::PathBuf;
use palc::{Parser, Args, Subcommand, ValueEnum};

// The environment of the analysis: conversions of arbitrary user types. Their bodies are
// never looked at; the analysis treats them as unknown partial functions of their input.
macro_rules! user_type {
    ($t:ident, $e:ident, $f:ident, $m:ident, $in:ty) => {
        pub struct $t(usize);
        pub struct $e(usize);
        #[inline(never)] pub fn $f(s: $in) -> Result<$t, $e> { if s.len() > 3 { Ok($t(s.len())) } else { Err($e(s.len())) } }
        #[inline(never)] pub fn $m(e: &$e) -> &str { if e.0 > 3 { "a" } else { "b" } }
        impl std::fmt::Debug for $e { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
        impl std::fmt::Display for $e { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str($m(self)) } }
        impl std::error::Error for $e {}
    };
}
user_type!(V, VErr, env_parse_V, env_text_V, &str);
impl std::str::FromStr for V { type Err = VErr; fn from_str(s: &str) -> Result<V, VErr> { env_parse_V(s) } }
user_type!(W, WErr, env_parse_W, env_text_W, &OsStr);
impl<'a> TryFrom<&'a OsStr> for W { type Error = WErr; fn try_from(s: &'a OsStr) -> Result<W, WErr> { env_parse_W(s) } }
#[inline(never)] pub fn env_const_a() -> V { V(1) }
#[inline(never)] pub fn env_const_b() -> V { V(2) }
#[inline(never)] pub fn env_shown_V(v: &V) -> &str { if v.0 > 3 { "a" } else { "b" } }
impl std::fmt::Display for V { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(env_shown_V(self)) } }
impl Default for V { fn default() -> V { env_const_a() } }

pub enum Out<T> { Ok(T), Help(String), Err(String, bool) }
pub type It<'a> = &'a mut dyn Iterator<Item = OsString>;
pub fn run<C: Parser>(it: It<'_>) -> Out<C> {
    match C::try_parse_from(it) {
        Ok(c) => Out::Ok(c),
        Err(e) => match e.try_into_help() {
            Ok(h) => Out::Help(h),
            Err(e) => { let s = e.source().is_some(); Out::Err(e.to_string(), s) }
        },
    }
}
'''


def collect(struct, structs, enums, venums, top):
    if struct.name in structs:
        return
    for x in struct.items:
        if isinstance(x, Arg) and isinstance(x.ty, VEnum):
            venums[x.ty.rust] = x.ty
        if isinstance(x, Flat):
            collect(x.struct, structs, enums, venums, False)
        if isinstance(x, Sub):
            enums[x.enum.name] = x.enum
            for ident, kind, st, doc in x.enum.variants:
                if kind == 'tuple':
                    collect(st, structs, enums, venums, False)
                elif kind == 'struct':
                    sub = {}
                    collect(st, sub, enums, venums, False)
                    for k, v in sub.items():
                        if k != st.name:
                            structs[k] = v
    structs[struct.name] = (struct, top)


def rust_crate(clis, process=False):
    """One witness crate: a module per definition."""
    o = PRELUDE
    for name, st in clis:
        structs, enums, venums = {}, {}, {}
        collect(st, structs, enums, venums, True)
        o += 'pub mod %s {\nuse super::*;\n' % name
        for v in venums.values():
            o += v.decl_rust()
        for e in enums.values():
            o += e.decl_rust()
        for s, top in structs.values():
            o += s.decl_rust(top)
        if process:
            o += '}\npub fn parse_%s() -> %s::%s { <%s::%s as Parser>::parse() }\n' % (name, name, st.name, name, st.name)
            continue
        o += '}\npub fn entry_%s(it: It<\'_>) -> Out<%s::%s> { run(it) }\n' % (name, name, st.name)
    return o
