"""C19: odd inputs for the derive macros. Whether they are accepted or refused does not matter here; the macros have to survive."""
import re

IDENTS = 'a A _a __ _1 __1_ aB ABC a1 é Éa 日本 _é r#type r#fn r#_a r#Type ǆ ß a_ a__b ſ'.split()
TYPES = ['bool', 'Bool', 'std::primitive::bool', '::std::string::String', 'String', 'Option<String>', 'Option<Option<String>>', 'Option<Option<Option<String>>>', 'Option<bool>', 'Option<Vec<bool>>', 'Vec<bool>', 'Vec<Option<String>>',
         'Option<Vec<Option<String>>>', 'Vec<Vec<String>>', 'Option', 'Vec', 'Option<>', 'Vec<>', 'Option<,>', 'Option<String, String>', 'Vec<String, std::alloc::Global>', "Option<'static>", "Vec<'static, String>", 'Option<3>', 'Option<{ 3 }>', 'Option<Item = u8>',
         'Option<T: Clone>', 'Option(String) -> u8', 'Vec()', 'std::option::Option<String>', '::core::option::Option<u8>', 'std::vec::Vec<u8>', 'my::Option<u8>', '<u8 as Tr>::Option', '<Vec<u8> as IntoIterator>::Item', 'Self', 'Self::X', 'Option<Self>',
         '()', '(u8,)', '(u8, u8)', '(bool)', '(Option<u8>)', 'Option<(u8)>', '[u8; 3]', '[u8]', '&str', "&'static str", "&'static mut [u8]", '*const u8', 'fn()', 'fn(u8) -> bool', '!', '_', 'impl Clone', 'dyn Clone', 'Box<dyn Clone>', 'mac!()', 'mac![bool]', 'Option<mac!()>',
         'u8 + u8', 'for<\'a> fn(&\'a u8)', 'Box<str>', 'Option<Box<[u8]>>', 'crate::Inner', 'super::X', 'typeof(1)', 'r#bool', 'Option::<u8>', 'Vec::<u8>', 'dyn for<\'a> Fn(&\'a u8)', 'unsafe extern "C" fn()', '?Sized', 'Option<_>', 'Vec<!>', '']
VALUES = ['', ' = ', ' = 3', ' = -3', ' = 3.5', ' = true', ' = false', ' = "x"', " = 'x'", ' = ""', ' = "-"', ' = "é"', ' = "\\u{0}"', ' = "a=b"', ' = " "', " = '\\n'", " = '\\u{301}'", " = '\\u{10FFFF}'", ' = b"x"', " = b'x'", ' = c"x"', ' = r#"x"#', ' = x', ' = "not an ident"', ' = "1"',
          ' = "fn"', ' = "r#fn"', ' = "a.b"', ' = "self"', ' = "_"', ' = "é"', ' = "\'a"', ' = "a b"', ' = "r#"', ' = []', ' = ["x"]', " = ['x']", ' = ["x",]', ' = ["x" "y"]', ' = [[]]', ' = [3]', ' = ["", ""]', ' = {}', ' = ()', ' = f()', ' = mac!()', ' = |x| x', ' = "x" + "y"', ' = ,', ' = "x",,', ' = = "x"', ' "x"', '()', '(x)', '("x")', '[x]', '{x}', ' = &["x"]', ' = if true { 1 } else { 2 }', ' = ..', ' = #x', ' = $x', ' = 1u128', ' = 99999999999999999999999999999999999999999999', ' = concat!("a", "b")', ' = "x".to_string()', ' = vec![]', ' = <u8>::MAX', ' = "\\\n x"', ' = "a\\nb\\n\\nc"', ' = "{}"', ' = "{"', ' = "%s\\0"']
ARGS = '''long short alias aliases short_alias short_aliases value_name require_equals global allow_hyphen_values allow_negative_numbers trailing_var_arg last value_delimiter use_value_delimiter value_enum ignore_case
default_value default_value_t default_values_t help long_help hide required exclusive requires conflicts_with conflicts_with_all'''.split()
COMMANDS = 'name version author about long_about after_help after_long_help subcommand flatten term_width max_term_width'.split()
VALUEA = 'name rename_all alias skip help'.split()
FORMS = ['#[%s]', '#[%s()]', '#[%s = "x"]', '#[%s = 3]', '#[%s[]]', '#[%s{}]', '#[%s(,)]', '#[%s(long,)]', '#[%s(long,,short)]', '#[%s(long short)]', '#[%s(long; short)]', '#[%s(3)]', '#[%s("x")]', '#[%s(\'x\')]', '#[%s(=)]', '#[%s(a::b)]', '#[%s(::long)]', '#[%s(r#long)]', '#[%s(Self)]', '#[%s(self = 1)]', '#[%s(crate)]', '#[%s(fn)]',
         '#[%s(_)]', '#[%s(é)]', '#[%s(long::<u8>)]', '#[%s((long))]', '#[%s([long])]', '#[%s({long})]', '#[%s(#[x] long)]', '#[%s(long = )]', '#[%s(long(x))]', '#[%s(long[0])]', '#[%s(!long)]', '#[%s(&long)]', '#[%s(.. )]', '#[%s(mac!())]', '#[%s(cfg(x), long)]', '#[%s::x]', '#[%s::x(long)]', '#[r#%s(long)]', '#[unsafe(%s(long))]']
ATTRS = ['#[doc]', '#[doc(hidden)]', '#[doc = ""]', '#[doc = " "]', '#[doc = "é"]', '#[doc = "\\n"]', '#[doc = "a\\n\\n\\nb"]', '#[doc = 3]', '#[doc = include_str!("x")]', '#[doc = concat!("a")]', '#[doc()]', '#[doc{}]', '#[doc["x"]]', '#[doc = "\\u{0}"]', '#[doc = b"x"]', '///', '/// ', '///é', '///\tx\n///', '/**\n * x\n *\n * y */', '/***/', '#[cfg(any())]', '#[cfg_attr(all(), arg(long))]', '#[cfg_attr(all(), doc = "x")]',
         '#[allow(unused)]', '#[serde(x)]', '#[rustfmt::skip]', '#[deprecated]', '#[must_use = 3]', '#![doc = "x"]', '#[default]', '#[inline]', '#[arg(long)] #[arg(long)] #[arg(long)]', '/// ```\n/// { } " \\ {}\n/// ```', '///   \n///   x  \n///', '#[doc = "x"] #[doc] #[doc = "y"]']
ITEMS = ['struct X;', 'struct X();', 'struct X {}', 'struct X(u8);', 'struct X(u8, bool);', 'struct X(#[arg(long)] bool);', 'enum X {}', 'enum X { A }', 'enum X { A() }', 'enum X { A {} }', 'enum X { A(u8) }', 'enum X { A(u8, u8) }', 'enum X { A { a: bool } }', 'enum X { A = 3 }', 'enum X { A = 3, B(u8), C {} }', 'enum X { A, A }', 'enum X { _A, A_ }', 'enum X { __ }', 'enum X { r#fn }', 'enum X { r#type, r#Self_ }',
         'enum X { É, 日本 }', 'enum X { A(#[arg(long)] Inner) }', 'enum X { A(Box<Inner>) }', 'enum X { A(Option<Inner>) }', 'enum X { A(Vec<Inner>) }', 'enum X { A(mac!()) }', 'enum X { A(()) }', 'enum X { A(!) }', 'enum X { pub A }', 'enum X { A, #[cfg(any())] B }', 'enum X { A { #[command(subcommand)] x: X } }', 'enum X { A { #[command(flatten)] x: Box<X> } }', 'union X { a: u8 }', 'union X { #[arg(long)] a: bool, b: u8 }',
         'struct X<T> { a: T }', "struct X<'a> { a: &'a str }", 'struct X<const N: usize> { a: [u8; N] }', 'struct X<T: Clone = u8> where T: Copy { a: Vec<T> }', "struct X<'a, T: 'a + ?Sized>(&'a T);", 'struct X<> { a: bool }', 'struct X where { a: bool }', 'struct X where u8: Copy { a: bool }', 'enum X<T> { A(T) }', "enum X<'a> { A(&'a str) }", 'enum X<const N: u8> { A }', 'enum X<T = ()> where T: Copy { A, B(T) }',
         'struct r#fn { a: bool }', 'struct É { é: bool }', 'struct _X { _x: bool }', 'struct __ { __: bool }', 'enum r#enum { r#struct }', 'struct X { pub(crate) a: bool, pub(in crate) b: bool }', 'struct X { a: bool, a: bool }', 'struct X { a: X }', 'struct X { #[command(flatten)] a: X }', 'struct X { #[command(subcommand)] a: X }', 'struct X { #[command(subcommand)] a: Option<X> }', 'struct X { #[command(flatten)] a: Option<X> }',
         'struct X { #[command(subcommand)] a: Vec<X> }', 'struct X { #[command(subcommand)] a: bool }', 'struct X { #[command(flatten)] a: () }', 'struct X { #[command(flatten)] a: mac!() }', 'struct X { #[command(subcommand)] a: mac!() }', 'struct X { #[command(subcommand)] a: Option<mac!()> }', 'struct X { #[command(flatten)] a: &str }', 'struct X { a: struct { b: u8 } }', 'pub(self) struct X { a: bool }', 'fn x() {}', 'impl X {}', 'trait X {}', 'type X = u8;', 'mod x {}', 'const X: u8 = 3;', 'static X: u8 = 3;', 'extern "C" {}', 'mac!{}', 'struct X { }  struct Y;',
         'struct X { %s }' % ', '.join('#[arg(long)] f%d: bool' % n for n in range(600)), 'struct X { %s }' % ', '.join('f%d: Option<u8>' % n for n in range(256)), 'enum X { %s }' % ', '.join('V%d' % n for n in range(600)), 'enum X { %s }' % ', '.join('V%d { a: u8 }' % n for n in range(300)),
         'struct X { %s }' % ', '.join('#[arg(long)] %s: bool' % ('x' * n) for n in (1, 255, 256, 5000, 70000)), 'enum X { %s }' % ('A' * 70000), 'struct X { #[arg(long, aliases = [%s])] a: bool }' % ', '.join('"n%d"' % n for n in range(400)), 'struct X { a: %sbool%s }' % ('Option<' * 100, '>' * 100), 'struct X { a: %sbool%s }' % ('(' * 60, ')' * 60), 'struct X { a: Option<%s> }' % ('Vec<' * 60 + 'u8' + '>' * 60),
         '%s struct X { a: bool }' % '/// x\n' * 1 + '', '/// %s\nstruct X { a: bool }' % ('é' * 70000), 'struct X { %s }' % ', '.join('#[command(flatten)] f%d: Inner' % n for n in range(300)), 'struct X { #[arg(long, %s)] a: bool, b: bool }' % ', '.join('requires = "b"' for _ in range(300)), 'struct X { #[arg(long = "%s")] a: bool }' % ('x' * 70000), 'struct X { #[arg(long, value_name = "%s")] a: u8 }' % ('é' * 300)]
DERIVES = ['Parser', 'Args', 'Subcommand', 'ValueEnum']


def inputs():
    """(name, source) in small pieces: one derive each."""
    def item(d, body):
        return '#[derive(%s)] pub %s' % (d, body) if re.match('(struct|enum|union) ', body) else re.sub(r'((?:pub\(\w+\) )?(?:struct|enum|union|fn|impl|trait|type|mod|const|static|extern|mac!) ?)', lambda m: '#[derive(%s)] ' % d + m.group(1), body, count=1)

    for d in DERIVES:
        for n, x in enumerate(ITEMS):
            yield 'item/%s/%d' % (d, n), item(d, x)
        for n, a in enumerate(ATTRS):
            yield 'attr/%s/%d' % (d, n), '#[derive(%s)] %s\npub struct X { %s\n#[arg(long)] a: bool }' % (d, a, a)
            yield 'attr-enum/%s/%d' % (d, n), '#[derive(%s)] %s\npub enum X { %s\nA, %s\nB(Inner), C { %s\na: bool } }' % (d, a, a, a, a)
            yield 'attr-unit/%s/%d' % (d, n), '#[derive(%s)] %s\npub enum X { %s\nA, %s\nB }' % (d, a, a, a)
        for w in ('arg', 'command', 'value'):
            for n, fm in enumerate(FORMS):
                a = fm % w
                yield 'form-on-item/%s/%s/%d' % (d, w, n), '#[derive(%s)] %s pub %s X { A { a: bool } }' % (d, a, 'enum') if d in ('Subcommand', 'ValueEnum') else '#[derive(%s)] %s pub struct X { a: u8 }' % (d, a)
                yield 'form/%s/%s/%d' % (d, w, n), '#[derive(%s)] pub enum X { %s A, B { %s b: bool }, %s C(Inner), D(%s Inner) }' % (d, a, a, a, a) if d == 'Subcommand' else '#[derive(%s)] pub enum X { %s A, B }' % (d, a) if d == 'ValueEnum' else '#[derive(%s)] pub struct X { %s a: bool }' % (d, a)
    for t in TYPES:
        for at in ('', '#[arg(long)]', '#[arg(short, required = true)]', '#[arg(last = true)]', '#[arg(trailing_var_arg = true)]', '#[arg(long, require_equals = true)]', '#[arg(long, default_value_t)]', '#[arg(long, ignore_case = true, value_enum)]', '#[command(flatten)]', '#[command(subcommand)]'):
            yield 'type/%s %s' % (at, t), '#[derive(Args)] pub struct X { %s a: %s }' % (at, t)
        yield 'vtype/%s' % t, '#[derive(Subcommand)] pub enum X { V { a: %s, #[arg(long)] b: bool } }' % t
        yield 'newtype/%s' % t, '#[derive(Subcommand)] pub enum X { V(%s) }' % t
    for n in IDENTS:
        for at in ('', '#[arg(long)]', '#[arg(short)]', '#[arg(short, long, value_name = "x", requires = "%s")]' % n, '#[arg(long, conflicts_with_all = ["%s", "a"])]' % n):
            yield 'ident/%s %s' % (at, n), '#[derive(Parser)] pub struct X { %s %s: Option<String>, #[arg(long = "zz")] %s_b: bool }' % (at, n, n)
        yield 'ident-item/%s' % n, '#[derive(Parser)] pub struct %s { a: u8 }' % n
        yield 'ident-variant/%s' % n, '#[derive(Subcommand)] pub enum X { %s, B%s { %s: u8 } }' % (n, n.replace('r#', ''), n)
        for rn in ('camelCase', 'kebab-case', 'PascalCase', 'SCREAMING_SNAKE_CASE', 'snake_case', 'lower', 'UPPER', 'verbatim', '', 'x'):
            yield 'ident-value/%s/%s' % (rn, n), '#[derive(ValueEnum)] #[value(rename_all = "%s")] pub enum X { %s, B%s }' % (rn, n, n.replace('r#', ''))
    for a in ARGS:
        for v in VALUES:
            yield 'arg/%s%s' % (a, v), '#[derive(Args)] pub struct X { #[arg(%s%s)] a: Option<String>, b: u8 }' % (a, v)
            yield 'arg-long/%s%s' % (a, v), '#[derive(Parser)] pub struct X { #[arg(long = "q", %s%s)] a: Vec<u8> }' % (a, v)
            yield 'arg-flag/%s%s' % (a, v), '#[derive(Subcommand)] pub enum X { A { #[arg(long = "q", %s%s)] a: bool, fn_: u8 }, B }' % (a, v)
    for a in COMMANDS:
        for v in VALUES:
            yield 'command/%s%s' % (a, v), '#[derive(Parser)] #[command(%s%s)] pub struct X { #[command(%s%s)] a: Option<Inner> }' % (a, v, a, v)
            yield 'command-variant/%s%s' % (a, v), '#[derive(Subcommand)] pub enum X { #[command(%s%s)] A, #[command(%s%s)] B(Inner), #[command(%s%s)] C { a: u8 } }' % (a, v, a, v, a, v)
    for a in VALUEA:
        for v in VALUES:
            yield 'value/%s%s' % (a, v), '#[derive(ValueEnum)] #[value(%s%s)] pub enum X { #[value(%s%s)] A, B }' % (a, v, a, v)
    # what the macros see when they are themselves used inside a macro
    for n, s in enumerate(['macro_rules! m { ($t:ty, $n:ident, $l:literal, $e:expr) => { #[derive(%s)] pub struct X { #[arg(long = $l, default_value_t = $e)] $n: $t } } } m!(%s, %s, %s, %s);' % (d, t, i, l, x)
                           for d in ('Parser', 'Args') for t, i, l, x in [('u8', 'a', '"x"', '3'), ('Option<u8>', 'r#fn', '-3', 'None'), ('bool', 'é', "'x'", 'true'), ('()', '_a', '"é"', '{ }')]]):
        yield 'macro/%d' % n, s
    for n, s in enumerate(['macro_rules! m { ($($t:tt)*) => { #[derive(%s)] pub enum X { $($t)* } } } m!(%s);' % (d, t) for d in ('Subcommand', 'ValueEnum') for t in ('A', 'A,', 'A(Inner)', 'A { a: u8 }', 'A = 3', '', '#[value(name = "x")] A', '#[command(name = "x")] A')]):
        yield 'macro-enum/%d' % n, s


PRE = '''#![allow(warnings)]
use palc::{Parser, Args, Subcommand, ValueEnum};
#[derive(Clone, ValueEnum)] pub enum Mode { Fast }
#[derive(Args)] pub struct Inner { #[arg(long)] inner: bool }
macro_rules! mac { ($($t:tt)*) => { bool } }
macro_rules! id { ($($t:tt)*) => { $($t)* } }
'''


GOOD = dict(long=['', ' = "x"'], short=['', " = 'x'"], alias=[' = "y"'], aliases=[' = ["z"]'], short_alias=[" = 'y'"], short_aliases=[" = ['z']"], value_name=[' = "V"'], value_delimiter=[" = ','", " = 'é'"], value_enum=[''], default_value=[' = "x"', ' = "fast"'],
            default_value_t=['', ' = 3', ' = None'], default_values_t=['', ' = vec![]'], help=[' = "x"', ' = f()'], long_help=['', ' = "x"'], requires=[' = "b"', ' = "a"'], conflicts_with=[' = "b"', ' = "a"'], conflicts_with_all=[' = ["b"]', ' = []', ' = ["b", "a"]'])


def pairs():
    """Every pair of options, with values which are right for each of them alone."""
    for i, x in enumerate(ARGS):
        for y in ARGS[i:]:
            for v in GOOD.get(x, [' = true']):
                for w in GOOD.get(y, [' = true']):
                    for t in ('bool', 'u8', 'Option<Mode>', 'Option<Option<u8>>', 'Vec<String>', 'Option<Vec<u8>>'):
                        for l in ('', 'long = "l", '):
                            if not (l and 'long' in (x, y)):
                                yield 'pair/%s%s, %s%s, %s%s' % (l, x, v, y, w, t), '#[derive(Args)] pub struct X { #[arg(%s%s%s, %s%s)] a: %s, #[arg(long)] b: bool }' % (l, x, v, y, w, t)


SENTINEL = '#[derive(Parser)] pub struct Sentinel { #[arg(long, sentinel)] a: bool }'


def text(g):
    """The file holding the items, and line -> index of the item. What is not an item at all is only rejected when `id!` is
    expanded, so it does not keep the compiler from looking at the others."""
    out, lines = PRE, {}
    for n, s in enumerate([s for _, s in g] + [SENTINEL]):
        l = out.count('\n') + 1
        out += 'id! { pub mod g%d { use super::*;\n%s\n} }\n' % (n, s)
        for x in range(l, out.count('\n') + 1):
            lines[x] = n
    for x in range(1, out.count('\n') + 2):
        lines.setdefault(x, len(g) + 1)
    return out, lines


class Crash:
    technique = 'compile-time witnesses: the derive macros of the current tree expanded over malformed and unusual items, looking for macro panics, compiler crashes, endless expansion and unparsable output'
    note = 'A grid of malformed and unusual items, attributes, types, names and literals; not every token stream.'

    def run(self, r):
        import witness, reject, build
        lib = witness.Lib(('help',), 'cr')
        cov = dict(evaluations=0, derives=0, by_kind={})
        todo = list(inputs()) + (list(pairs()) if r.tier == 'thorough' else [])
        step, alone = 100, 0
        groups = [todo[a:a + step] for a in range(0, len(todo), step)]
        while groups:
            again = []
            texts = [text(g) for g in groups]
            res = lib.many([('g%d' % n, t) for n, (t, _) in enumerate(texts)])
            for n, (g, (t, lines)) in enumerate(zip(groups, texts)):
                rc, out = res['g%d' % n]
                cov['evaluations'] += 1
                c = witness.crashed((rc, out))
                hits = {}
                for m in re.finditer(r'w\.rs:(\d+):.*', out):
                    if witness.CRASH.search(m.group(0)):
                        hits.setdefault(lines[int(m.group(1))], m.group(0))
                # the last item of every file is one whose refusal is known: seeing it means that everything before was expanded
                seen = any(lines[int(m.group(1))] == len(g) for m in re.finditer(r'w\.rs:(\d+):\d+: error', out))
                if len(g) > 1 and (not seen or c and not hits):
                    h = max(1, len(g) // 8)
                    again += [g[a:a + h] for a in range(0, len(g), h)]
                    continue
                if not seen and not c:
                    alone += 1
                    cov['not_tokens'] = cov.get('not_tokens', []) + [g[0][0]]
                    continue
                if c and not hits:
                    hits[0] = c
                for k, _ in g:
                    cov['derives'] += 1
                    kk = k.split('/')[0]
                    cov['by_kind'][kk] = cov['by_kind'].get(kk, 0) + 1
                for h, c in hits.items():
                    k, s = g[h] if h < len(g) else ('?', t)
                    r.violation('crash/' + re.sub(r'\W+', '-', k)[:80], 'macro crash on `%s`: %s' % (s[:300], c[:300]), definition=s, error=out[-2000:])
            groups = again
        if r.tier == 'thorough':
            ws = [(k, s) for k, b, g in reject.witnesses(r.tier) for s in (b, g)]
            res = lib.many([('x%d' % n, reject.PRE + s) for n, (k, s) in enumerate(ws)])
            for n, (k, s) in enumerate(ws):
                cov['derives'] += 1
                c = witness.crashed(res['x%d' % n])
                if c:
                    r.violation('crash/' + k, 'macro crash on `%s`: %s' % (s[:300], c[:300]), definition=s, error=res['x%d' % n][1][-2000:])
        cov['samples'] = [s[:200] for _, s in todo[:5]]
        cov['explanation'] = 'the four derive macros were expanded on %d items' % cov['derives']
        r.coverage = cov
        r.assume = ['a panic of a derive macro is reported by rustc as such', 'the items stand for what users write; not every token stream is covered']

