"""C18: definitions which must not compile, each with its nearest valid neighbour, which must."""
import re

PRE = '''#![allow(warnings)]
use palc::{Parser, Args, Subcommand, ValueEnum};
#[derive(Clone, ValueEnum)] pub enum Mode { Fast, SlowPath }
#[derive(Clone, ValueEnum)] pub enum Up { Fast, #[value(name = "uP")] B }
#[derive(Clone, ValueEnum)] #[value(rename_all = "PascalCase")] pub enum Pascal { Fast }
#[derive(Args)] pub struct Inner { #[arg(long)] inner: bool }
#[derive(Args)] pub struct InPos { file: String }
#[derive(Args)] pub struct InVar { #[arg(long)] l: bool, file: Vec<String> }
#[derive(Args)] pub struct InLast { #[arg(last = true)] file: Vec<String> }
#[derive(Args)] pub struct InSub { #[command(subcommand)] c: Cmd }
#[derive(Args)] pub struct InOptSub { #[command(subcommand)] c: Option<Cmd> }
#[derive(Subcommand)] pub enum Cmd { Go, Run { x: String } }
pub struct Opaque;
'''
WRAP = {'parser': '#[derive(Parser)] pub struct Main { %s }', 'args': '#[derive(Args)] pub struct Sub0 { %s }\n#[derive(Parser)] pub struct Main { #[command(subcommand)] c: W }\n#[derive(Subcommand)] pub enum W { V(Sub0) }',
        'variant': '#[derive(Parser)] pub struct Main { #[command(subcommand)] c: W }\n#[derive(Subcommand)] pub enum W { V { %s } }'}

FIELDS = []     # (rule, bad fields, good fields)
ITEMS = []      # (rule, bad items, good items)


def f(rule, bad, good):
    FIELDS.append((rule, bad, good))


def i(rule, bad, good):
    ITEMS.append((rule, bad, good))


# ---- duplicate and malformed names ----
f('dup-long', '#[arg(long)] a: bool, #[arg(long = "a")] b: bool', '#[arg(long)] a: bool, #[arg(long = "b")] b: bool')
f('dup-long-far', '#[arg(long)] a: bool, #[arg(long)] c: Option<String>, p: String, #[arg(short, long = "a")] b: bool', '#[arg(long)] a: bool, #[arg(long)] c: Option<String>, p: String, #[arg(short, long = "A")] b: bool')
f('dup-short', '#[arg(short)] a: bool, #[arg(short = \'a\')] b: bool', '#[arg(short)] a: bool, #[arg(short = \'A\')] b: bool')
f('dup-short-unicode', '#[arg(short = \'é\')] a: bool, #[arg(short = \'é\')] b: bool', '#[arg(short = \'é\')] a: bool, #[arg(short = \'è\')] b: bool')
f('dup-short-long-only', '#[arg(short)] a: bool, #[arg(long, short = \'a\')] b: bool', '#[arg(short)] a: bool, #[arg(long = "a")] b: bool')
f('dup-long-alias', '#[arg(long, alias = "b")] a: bool, #[arg(long)] b: bool', '#[arg(long, alias = "c")] a: bool, #[arg(long)] b: bool')
f('dup-long-alias-rev', '#[arg(long)] a: bool, #[arg(long, alias = "a")] b: bool', '#[arg(long)] a: bool, #[arg(long, alias = "aa")] b: bool')
f('dup-alias-alias', '#[arg(long, alias = "x")] a: bool, #[arg(long, alias = "x")] b: bool', '#[arg(long, alias = "x")] a: bool, #[arg(long, alias = "y")] b: bool')
f('dup-own-alias', '#[arg(long, alias = "a")] a: bool', '#[arg(long, alias = "b")] a: bool')
f('dup-own-aliases', '#[arg(long, aliases = ["x", "x"])] a: bool', '#[arg(long, aliases = ["x", "y"])] a: bool')
f('dup-alias-twice', '#[arg(long, alias = "x", alias = "x")] a: bool', '#[arg(long, alias = "x", alias = "y")] a: bool')
f('dup-short-alias', '#[arg(short, short_alias = \'b\')] a: bool, #[arg(short)] b: bool', '#[arg(short, short_alias = \'c\')] a: bool, #[arg(short)] b: bool')
f('dup-short-alias-alias', '#[arg(short, short_alias = \'x\')] a: bool, #[arg(short, short_aliases = [\'y\', \'x\'])] b: bool', '#[arg(short, short_alias = \'x\')] a: bool, #[arg(short, short_aliases = [\'y\', \'z\'])] b: bool')
f('dup-own-short-alias', '#[arg(short, short_alias = \'a\')] a: bool', '#[arg(short, short_alias = \'b\')] a: bool')
f('dup-after-kebab', '#[arg(long)] foo_bar: bool, #[arg(long = "foo-bar")] b: bool', '#[arg(long)] foo_bar: bool, #[arg(long = "foo_bar")] b: bool')
f('dup-raw-ident', '#[arg(long)] r#type: bool, #[arg(long = "type")] b: bool', '#[arg(long)] r#type: bool, #[arg(long = "r#type")] b: bool')
f('dup-raw-short', '#[arg(short)] r#type: bool, #[arg(short)] t: bool', '#[arg(short)] r#type: bool, #[arg(short)] r: bool')
f('dup-case-kebab', '#[arg(long)] fooBar: bool, #[arg(long)] foo_bar: bool', '#[arg(long)] fooBar: bool, #[arg(long)] foobar: bool')
for n, s in [('empty', ''), ('dash', '-x'), ('dashes', '--x'), ('lone-dash', '-'), ('eq', 'a=b'), ('eq-end', 'a='), ('eq-start', '=a'), ('newline', 'a\\nb'), ('nul', 'a\\0'), ('esc', '\\x1b[0m'), ('del', 'a\\x7f'), ('tab', 'a\\tb')]:
    f('long-' + n, '#[arg(long = "%s")] a: Option<String>' % s, '#[arg(long = "ok-1")] a: Option<String>')
    f('long-alias-' + n, '#[arg(long, alias = "%s")] a: bool' % s, '#[arg(long, alias = "ok-1")] a: bool')
    f('long-aliases-' + n, '#[arg(long, aliases = ["x", "%s"])] a: bool' % s, '#[arg(long, aliases = ["x", "ok-1"])] a: bool')
for n, s in [('dash', '-'), ('eq', '='), ('newline', '\\n'), ('nul', '\\0'), ('del', '\\x7f'), ('esc', '\\x1b')]:
    f('short-' + n, "#[arg(short = '%s')] a: Option<String>" % s, "#[arg(short = '_')] a: Option<String>")
    f('short-alias-' + n, "#[arg(short, short_alias = '%s')] a: bool" % s, "#[arg(short, short_alias = '1')] a: bool")
    f('short-aliases-' + n, "#[arg(long, short_aliases = ['x', '%s'])] a: bool" % s, "#[arg(long, short_aliases = ['x', '?'])] a: bool")
# every way of giving one name, against every way of giving it again, on bare and on busy fields
LONG_WAYS = dict(long='long = "%s"', alias='alias = "%s"', first='aliases = ["%s", "l{0}"]', second='aliases = ["l{0}", "%s"]')
SHORT_WAYS = dict(short="short = '%s'", alias="short_alias = '%s'", first="short_aliases = ['%s', '{0}']", second="short_aliases = ['{0}', '%s']")


def one_way(ways, kind, name, n, busy):
    own = [ways[kind] % name]
    if ways is LONG_WAYS:
        if kind != 'long':
            own.insert(0, 'long')
        if busy:
            own += ["short = '%s'" % 'UV'[n], "short_alias = '%s'" % 'WX'[n], "short_aliases = ['%s', '%s']" % (('1', '2') if n else ('3', '4'))]
            own += ['alias = "k%d"' % n] if kind in ('long', 'first', 'second') else ['aliases = ["k%d"]' % n]
    else:
        if kind != 'short':
            own.insert(0, "short = '%s'" % 'UV'[n])
        if busy:
            own += ['long', 'alias = "k%d"' % n, 'aliases = ["j%d", "i%d"]' % (n, n)]
            own += ["short_alias = '%s'" % 'WX'[n]] if kind != 'alias' else ["short_aliases = ['%s']" % 'WX'[n]]
    return '#[arg(%s)] %s: Option<String>' % (', '.join(own).replace('{0}', 'yz'[n]), 'ab'[n])


for ways, tag in ((LONG_WAYS, 'long'), (SHORT_WAYS, 'short')):
    name, other = ('same', 'other') if tag == 'long' else ('s', 'o')
    for k1 in ways:
        for k2 in ways:
            for busy in (False, True):
                mid = ', #[arg(long = "mid", short = \'m\')] mid: bool, ' if busy else ', '
                f('again-%s-%s-%s%s' % (tag, k1, k2, '-busy' if busy else ''), one_way(ways, k1, name, 0, busy) + mid + one_way(ways, k2, name, 1, busy), one_way(ways, k1, name, 0, busy) + mid + one_way(ways, k2, other, 1, busy))
f('long-underscores', '#[arg(long)] __: bool', '#[arg(long = "x")] __: bool')
f('short-str', '#[arg(short = "a")] a: bool', "#[arg(short = 'a')] a: bool")
f('long-char', "#[arg(long = 'a')] a: bool", '#[arg(long = "a")] a: bool')
f('alias-on-nothing', '#[arg(alias = "x")] a: String', '#[arg(long, alias = "x")] a: String')
f('short-alias-on-nothing', "#[arg(short_alias = 'x')] a: String", "#[arg(short, short_alias = 'x')] a: String")
# ---- attributes ----
for n, a in [('plain', 'foo'), ('value', 'foo = 1'), ('env', 'env = "X"'), ('num_args', 'num_args = 2'), ('index', 'index = 1'), ('action', 'action = 1'), ('value_parser', 'value_parser = f'), ('missing', 'default_missing_value = "x"'),
             ('longs', 'longs'), ('path', 'a::long'), ('skip', 'skip'), ('raw', 'raw = true'), ('group', 'group = "x"'), ('flatten', 'flatten'), ('subcommand', 'subcommand'), ('visible_alias', 'visible_alias = "x"'), ('id', 'id = "x"'), ('overrides_with', 'overrides_with = "a"')]:
    f('unknown-' + n, '#[arg(long, %s)] a: Option<String>' % a, '#[arg(long)] a: Option<String>')
ONCE = dict(long='long', short='short', value_name='value_name = "X"', require_equals='require_equals = true', allow_hyphen_values='allow_hyphen_values = true', allow_negative_numbers='allow_negative_numbers = true',
            default_value='default_value = "x"', default_value_t='default_value_t = String::new()', help='help = "x"', long_help='long_help = "x"', hide='hide = true', required='required = true', exclusive='exclusive = true')
ONCE['global'] = 'global = true'
for n, a in ONCE.items():
    t = 'Option<String>'
    l = 'long = "x", ' if n != 'long' else ''
    f('twice-' + n, '#[arg(%s%s, %s)] a: %s' % (l, a, a, t), '#[arg(%s%s)] a: %s' % (l, a, t))
    f('twice-apart-' + n, '#[arg(%s%s)] #[arg(%s)] a: %s' % (l, a, a, t), '#[arg(%s)] #[arg(%s)] a: %s' % (l or 'short', a, t))
FORMS = dict(long=['long', 'long = "x"', 'long = "y"'], short=['short', "short = 'x'", "short = 'y'"], value_name=['value_name = "X"', 'value_name = "Y"'],
             default_value=['default_value = "x"', 'default_value = "y"'], default_value_t=['default_value_t = String::new()', 'default_value_t = String::from("y")'],
             help=['help = "x"', 'help = "y"'], long_help=['long_help = "x"', 'long_help = "y"'], value_delimiter=["value_delimiter = ','", "value_delimiter = ';'"])
for n, forms in FORMS.items():
    t = 'Vec<String>' if n == 'value_delimiter' else 'String' if n == 'default_value_t' else 'Option<String>'
    l = 'long = "z", ' if n != 'long' else 'short = \'z\', '
    for x, a in enumerate(forms):
        for y, b in enumerate(forms):
            if n == 'value_delimiter' or x != y:
                f('form-twice-%s-%d-%d' % (n, x, y), '#[arg(%s%s, %s)] a: %s' % (l, a, b, t), '#[arg(%s%s)] a: %s' % (l, a, t))
                f('form-apart-%s-%d-%d' % (n, x, y), '#[arg(%s%s)] #[arg(%s)] a: %s' % (l, a, b, t), '#[arg(%s%s)] a: %s' % (l, a, t))
                f('form-around-%s-%d-%d' % (n, x, y), '#[arg(%s, %shide = true, %s)] a: %s' % (a, l, b, t), '#[arg(%s%s)] a: %s' % (l, b, t))
for n, a, t in [('ignore_case', 'ignore_case = true', 'Mode'), ('value_enum', 'value_enum', 'Mode'), ('value_delimiter', "value_delimiter = ','", 'Vec<String>'), ('use_value_delimiter', 'use_value_delimiter = true', 'Vec<String>')]:
    f('twice-' + n, '#[arg(long, %s, %s)] a: %s' % (a, a, t), '#[arg(long, %s)] a: %s' % (a, t))
f('twice-delimiters', "#[arg(long, use_value_delimiter = true, value_delimiter = ';')] a: Vec<String>", "#[arg(long, value_delimiter = ';')] a: Vec<String>")
f('twice-trailing', '#[arg(trailing_var_arg = true, trailing_var_arg = true)] a: Vec<String>', '#[arg(trailing_var_arg = true)] a: Vec<String>')
f('twice-last', '#[arg(last = true, last = true)] a: Vec<String>', '#[arg(last = true)] a: Vec<String>')
f('long-two-values', '#[arg(long = "a", long = "b")] a: bool', '#[arg(long = "a", alias = "b")] a: bool')
for n, t, l in [('require_equals', 'String', 'long, '), ('global', 'String', 'long, '), ('allow_hyphen_values', 'String', 'long, '), ('allow_negative_numbers', 'String', 'long, '), ('trailing_var_arg', 'Vec<String>', ''), ('last', 'Vec<String>', ''),
                ('use_value_delimiter', 'Vec<String>', 'long, '), ('ignore_case', 'Mode', 'long, '), ('hide', 'String', 'long, '), ('required', 'Option<String>', 'long, '), ('exclusive', 'Option<String>', 'long, ')]:
    f('false-' + n, '#[arg(%s%s = false)] a: %s' % (l, n, t), '#[arg(%s%s = true)] a: %s' % (l, n, t))
    f('bare-' + n, '#[arg(%s%s)] a: %s' % (l, n, t), '#[arg(%s%s = true)] a: %s' % (l, n, t))
    f('int-' + n, '#[arg(%s%s = 1)] a: %s' % (l, n, t), '#[arg(%s%s = true)] a: %s' % (l, n, t))
# ---- attributes on the wrong kind of argument ----
f('delimiter-single', "#[arg(long, value_delimiter = ',')] a: String", "#[arg(long, value_delimiter = ',')] a: Vec<String>")
f('delimiter-option', "#[arg(long, value_delimiter = ',')] a: Option<String>", "#[arg(long, value_delimiter = ',')] a: Option<Vec<String>>")
f('delimiter-positional', "#[arg(value_delimiter = ',')] a: String", "#[arg(value_delimiter = ',')] a: Vec<String>")
f('delimiter-flag', "#[arg(long, use_value_delimiter = true)] a: bool", "#[arg(long, use_value_delimiter = true)] a: Vec<bool>")
f('both-hyphen', '#[arg(long, allow_hyphen_values = true, allow_negative_numbers = true)] a: String', '#[arg(long, allow_negative_numbers = true)] a: String')
f('hyphen-flag', '#[arg(long, allow_hyphen_values = true)] a: bool', '#[arg(long, allow_hyphen_values = true)] a: String')
f('negative-flag', '#[arg(long, allow_negative_numbers = true)] a: bool', '#[arg(long, allow_negative_numbers = true)] a: i32')
f('hyphen-optional-value', '#[arg(long, require_equals = true, allow_hyphen_values = true)] a: Option<Option<String>>', '#[arg(long, require_equals = true)] a: Option<Option<String>>')
f('hyphen-require-equals', '#[arg(long, require_equals = true, allow_hyphen_values = true)] a: String', '#[arg(long, require_equals = true)] a: String')
f('negative-require-equals', '#[arg(long, require_equals = true, allow_negative_numbers = true)] a: i32', '#[arg(long, allow_negative_numbers = true)] a: i32')
f('hyphen-positional', '#[arg(allow_hyphen_values = true)] a: String', 'a: String')
f('negative-positional', '#[arg(allow_negative_numbers = true)] a: i32', 'a: i32')
f('optional-value-no-equals', '#[arg(long)] a: Option<Option<String>>', '#[arg(long, require_equals = true)] a: Option<Option<String>>')
f('optional-value-positional', '#[arg(require_equals = true)] a: Option<Option<String>>', '#[arg(long, require_equals = true)] a: Option<Option<String>>')
f('equals-flag', '#[arg(long, require_equals = true)] a: bool', '#[arg(long, require_equals = true)] a: String')
f('equals-positional', '#[arg(require_equals = true)] a: String', '#[arg(long, require_equals = true)] a: String')
f('global-positional', '#[arg(global = true)] a: String', '#[arg(long, global = true)] a: String')
f('ignore-case-positional', '#[arg(ignore_case = true)] a: Mode', '#[arg(long, ignore_case = true)] a: Mode')
f('trailing-named', '#[arg(long, trailing_var_arg = true)] a: Vec<String>', '#[arg(trailing_var_arg = true)] a: Vec<String>')
f('last-named', '#[arg(short, last = true)] a: Vec<String>', '#[arg(last = true)] a: Vec<String>')
f('trailing-single', '#[arg(trailing_var_arg = true)] a: String', '#[arg(trailing_var_arg = true)] a: Vec<String>')
f('trailing-option', '#[arg(trailing_var_arg = true)] a: Option<String>', '#[arg(trailing_var_arg = true)] a: Option<Vec<String>>')
f('last-single', '#[arg(last = true)] a: String', '#[arg(last = true)] a: Vec<String>')
f('last-option', '#[arg(last = true)] a: Option<String>', '#[arg(last = true)] a: Option<Vec<String>>')
f('bool-positional', 'a: bool', '#[arg(long)] a: bool')
f('value-name-control', '#[arg(long, value_name = "a\\nb")] a: String', '#[arg(long, value_name = "a b")] a: String')
f('value-name-control-positional', '#[arg(value_name = "\\x1b[1m")] a: String', '#[arg(value_name = "[1m")] a: String')
f('value-name-flag', '#[arg(long, value_name = "X")] a: bool', '#[arg(long, value_name = "X")] a: String')
f('ignore-case-string', '#[arg(long, ignore_case = true)] a: String', '#[arg(long, ignore_case = true)] a: Mode')
f('ignore-case-flag', '#[arg(long, ignore_case = true)] a: bool', '#[arg(long, ignore_case = true)] a: Option<Mode>')
f('ignore-case-upper', '#[arg(long, ignore_case = true)] a: Up', '#[arg(long)] a: Up')
f('ignore-case-upper-option', '#[arg(long, ignore_case = true)] a: Option<Up>', '#[arg(long, ignore_case = true)] a: Option<Mode>')
f('ignore-case-upper-vec', '#[arg(long, ignore_case = true)] a: Vec<Pascal>', '#[arg(long, ignore_case = true)] a: Vec<Mode>')
f('ignore-case-second-field', '#[arg(long, ignore_case = true)] a: Mode, #[arg(long, ignore_case = true)] b: Pascal', '#[arg(long, ignore_case = true)] a: Mode, #[arg(long, ignore_case = true)] b: Mode')
f('value-enum-string', '#[arg(long, value_enum)] a: String', '#[arg(long, value_enum)] a: Mode')
f('value-enum-value', '#[arg(long, value_enum = true)] a: Mode', '#[arg(long, value_enum)] a: Mode')
f('unparsable-type', '#[arg(long)] a: Opaque', '#[arg(long)] a: u8')
f('unparsable-vec', 'a: Vec<Opaque>', 'a: Vec<u8>')
f('unparsable-option-flag', '#[arg(long)] a: Option<()>', '#[arg(long)] a: Option<bool>')
# ---- required and default ----
f('required-default', '#[arg(long, required = true, default_value = "x")] a: String', '#[arg(long, default_value = "x")] a: String')
f('required-default-t', '#[arg(long, required = true, default_value_t = 3)] a: u8', '#[arg(long, default_value_t = 3)] a: u8')
f('required-default-inherit', '#[arg(long, required = true, default_value_t)] a: u8', '#[arg(long, default_value_t)] a: u8')
f('required-default-positional', '#[arg(required = true, default_value = "x")] a: String', '#[arg(default_value = "x")] a: String')
f('required-default-vec', '#[arg(long, required = true, default_value = "x")] a: Vec<String>', '#[arg(long, required = true)] a: Vec<String>')
f('required-default-option', '#[arg(long, required = true, default_value = "x")] a: Option<String>', '#[arg(long, required = true)] a: Option<String>')
f('two-defaults', '#[arg(long, default_value = "3", default_value_t = 3)] a: u8', '#[arg(long, default_value_t = 3)] a: u8')
f('two-defaults-s', '#[arg(long, default_value_t = 3, default_values_t = 3)] a: u8', '#[arg(long, default_value = "3")] a: u8')
f('default-wrong-type', '#[arg(long, default_value_t = "x")] a: u8', '#[arg(long, default_value_t = 7)] a: u8')
f('default-wrong-literal', '#[arg(long, default_value = 7)] a: u8', '#[arg(long, default_value = "7")] a: u8')
f('default-flag', '#[arg(long, default_value = "7")] a: bool', '#[arg(long, default_value = "true")] a: bool')
f('default-inherit-none', '#[arg(long, default_value_t)] a: std::num::NonZero<u8>', '#[arg(long, default_value_t)] a: u8')
# ---- constraints ----
for k, w in [('requires', 'requires = "%s"'), ('conflicts', 'conflicts_with = "%s"'), ('conflicts-all', 'conflicts_with_all = ["b", "%s"]')]:
    w2 = w if 'all' in k else w
    f('dangling-' + k, '#[arg(long, %s)] a: bool, #[arg(long)] b: bool, #[arg(long)] c: bool' % (w % 'nope'), '#[arg(long, %s)] a: bool, #[arg(long)] b: bool, #[arg(long)] c: bool' % (w % 'c'))
    f('dangling-positional-' + k, '#[arg(%s)] a: String, #[arg(long)] b: bool, #[arg(long)] c: bool' % (w % 'nope'), '#[arg(%s)] a: String, #[arg(long)] b: bool, #[arg(long)] c: bool' % (w % 'c'))
    f('dangling-name-' + k, '#[arg(long, %s)] a: bool, #[arg(long)] b: bool, #[arg(long = "other")] c: bool' % (w % 'other'), '#[arg(long, %s)] a: bool, #[arg(long)] b: bool, #[arg(long = "other")] c: bool' % (w % 'c'))
    f('dangling-case-' + k, '#[arg(long, %s)] a: bool, #[arg(long)] b: bool, #[arg(long)] c: bool' % (w % 'C'), '#[arg(long, %s)] a: bool, #[arg(long)] b: bool, #[arg(long)] c: bool' % (w % 'c'))
    f('not-ident-' + k, '#[arg(long, %s)] a: bool, #[arg(long)] b: bool, #[arg(long)] c: bool' % (w % 'c-d'), '#[arg(long, %s)] a: bool, #[arg(long)] b: bool, #[arg(long)] c: bool' % (w % 'c'))
    f('to-subcommand-' + k, '#[arg(long, %s)] a: bool, #[arg(long)] b: bool, #[command(subcommand)] c: Cmd' % (w % 'c'), '#[arg(long, %s)] a: bool, #[arg(long)] b: bool, #[command(subcommand)] c: Cmd' % (w % 'b').replace('"b", "b"', '"b"'))
    f('to-flattened-' + k, '#[arg(long, %s)] a: bool, #[arg(long)] b: bool, #[command(flatten)] c: Inner' % (w % 'inner'), '#[arg(long, %s)] a: bool, #[arg(long)] b: bool, #[command(flatten)] c: Inner' % (w % 'b').replace('"b", "b"', '"b"'))
    f('to-flatten-field-' + k, '#[arg(long, %s)] a: bool, #[arg(long)] b: bool, #[command(flatten)] c: Inner' % (w % 'c'), '#[arg(long, %s)] a: bool, #[arg(long)] b: bool, #[command(flatten)] c: Inner' % (w % 'b').replace('"b", "b"', '"b"'))
f('second-dangling', '#[arg(long, requires = "b", requires = "nope")] a: bool, #[arg(long)] b: bool', '#[arg(long, requires = "b")] a: bool, #[arg(long)] b: bool')
# ---- positional layout ----
f('positional-after-vec', 'a: Vec<String>, b: String', 'a: String, b: Vec<String>')
f('option-after-vec', 'a: Vec<String>, b: Option<String>', 'a: Option<String>, b: Vec<String>')
f('positional-after-option-vec', 'a: Option<Vec<String>>, b: String', 'b: String, a: Option<Vec<String>>')
f('positional-after-trailing', '#[arg(trailing_var_arg = true)] a: Vec<String>, b: String', 'b: String, #[arg(trailing_var_arg = true)] a: Vec<String>')
f('two-vec', 'a: Vec<String>, b: Vec<String>', 'a: Vec<String>, #[arg(last = true)] b: Vec<String>')
f('vec-option-vec', 'a: Option<Vec<String>>, b: Vec<String>', 'a: Option<Vec<String>>, #[arg(long)] b: Vec<String>')
f('vec-trailing', 'a: Vec<String>, #[arg(trailing_var_arg = true)] b: Vec<String>', 'a: Option<String>, #[arg(trailing_var_arg = true)] b: Vec<String>')
f('two-last', '#[arg(last = true)] a: Vec<String>, #[arg(last = true)] b: Vec<String>', '#[arg(last = true)] a: Vec<String>, b: Vec<String>')
f('two-last-mixed', '#[arg(last = true)] a: Vec<String>, c: String, #[arg(last = true)] b: Option<Vec<String>>', '#[arg(last = true)] a: Vec<String>, c: String, b: Option<Vec<String>>')
f('positional-after-vec-named', 'a: Vec<String>, #[arg(long)] x: bool, b: String', 'a: Vec<String>, #[arg(long)] x: bool, #[arg(long)] b: String')
# ---- flattening and subcommands ----
f('flatten-positional', '#[command(flatten)] x: InPos', '#[command(flatten)] x: Inner')
f('flatten-vec', '#[command(flatten)] x: InVar', '#[command(flatten)] x: Inner')
f('flatten-last', '#[command(flatten)] x: InLast', '#[command(flatten)] x: Inner')
f('flatten-second-positional', '#[command(flatten)] x: Inner, #[command(flatten)] y: InPos', '#[command(flatten)] x: Inner, y: String')
f('flatten-subcommand', '#[command(flatten)] x: InSub', '#[command(subcommand)] x: Cmd')
f('flatten-optional-subcommand', '#[command(flatten)] x: InOptSub', '#[command(subcommand)] x: Option<Cmd>')
f('flatten-option', '#[command(flatten)] x: Option<Inner>', '#[command(flatten)] x: Inner')
f('flatten-not-args', '#[command(flatten)] x: String', '#[command(flatten)] x: Inner')
f('flatten-enum', '#[command(flatten)] x: Cmd', '#[command(subcommand)] x: Cmd')
f('flatten-exclusive', '#[arg(long, exclusive = true)] a: bool, #[command(flatten)] x: Inner', '#[arg(long)] a: bool, #[command(flatten)] x: Inner')
f('flatten-exclusive-after', '#[command(flatten)] x: Inner, #[arg(long)] b: bool, #[arg(exclusive = true)] a: Option<String>', '#[command(flatten)] x: Inner, #[arg(long)] b: bool, a: Option<String>')
f('two-subcommands', '#[command(subcommand)] a: Cmd, #[command(subcommand)] b: Cmd', '#[command(subcommand)] a: Cmd, #[arg(long)] b: bool')
f('two-subcommands-optional', '#[command(subcommand)] a: Cmd, #[arg(long)] x: bool, #[command(subcommand)] b: Option<Cmd>', '#[command(subcommand)] a: Cmd, #[arg(long)] x: bool, b: Option<String>')
f('subcommand-args', '#[command(subcommand)] a: Inner', '#[command(subcommand)] a: Cmd')
f('subcommand-string', '#[command(subcommand)] a: Option<String>', '#[command(subcommand)] a: Option<Cmd>')
f('subcommand-vec', '#[command(subcommand)] a: Vec<Cmd>', '#[command(subcommand)] a: Option<Cmd>')
f('subcommand-arg', '#[command(subcommand)] #[arg(long)] a: Cmd', '#[command(subcommand)] a: Cmd')
f('arg-subcommand', '#[arg(hide = true)] #[command(subcommand)] a: Cmd', '#[command(subcommand)] a: Cmd')
f('flatten-arg', '#[command(flatten)] #[arg(global = true)] x: Inner', '#[command(flatten)] x: Inner')
f('flatten-twice', '#[command(flatten)] #[command(flatten)] x: Inner', '#[command(flatten)] x: Inner')
f('flatten-and-subcommand', '#[command(flatten)] #[command(subcommand)] x: Cmd', '#[command(subcommand)] x: Cmd')
f('flatten-subcommand-list', '#[command(flatten, subcommand)] x: Cmd', '#[command(subcommand)] x: Cmd')
f('command-unknown', '#[command(foo)] x: Inner', '#[command(flatten)] x: Inner')
f('command-empty', '#[command()] x: Inner', '#[command(flatten)] x: Inner')
f('command-bare', '#[command] x: Inner', '#[command(flatten)] x: Inner')
f('command-value', '#[command(flatten = true)] x: Inner', '#[command(flatten)] x: Inner')
f('subcommand-as-value', '#[arg(long)] x: Cmd', '#[arg(long)] x: Mode')
f('doc-not-literal', '#[doc = concat!("a", "b")] #[arg(long)] x: bool', '#[doc = "ab"] #[arg(long)] x: bool')
# ---- size ----
f('too-many-named', ', '.join('#[arg(long)] f%d: bool' % n for n in range(255)), ', '.join('#[arg(long)] f%d: bool' % n for n in range(254)))
f('too-many-positional', ', '.join('f%d: Option<u8>' % n for n in range(255)), ', '.join('f%d: Option<u8>' % n for n in range(254)))
f('far-too-many', ', '.join('#[arg(long)] f%d: bool' % n for n in range(300)), ', '.join('#[arg(long)] f%d: bool' % n for n in range(200)))
# ---- items ----
for d in ('Parser', 'Args'):
    g = '#[derive(%s)] pub struct X { #[arg(long)] a: bool }' % d
    i(d + '-tuple', '#[derive(%s)] pub struct X(String);' % d, g)
    i(d + '-unit', '#[derive(%s)] pub struct X;' % d, '#[derive(%s)] pub struct X {}' % d)
    i(d + '-enum', '#[derive(%s)] pub enum X { A }' % d, g)
    i(d + '-union', '#[derive(%s)] pub union X { a: u8, b: u8 }' % d, g)
    i(d + '-type-parameter', '#[derive(%s)] pub struct X<T> { #[arg(long)] a: Vec<T> }' % d, '#[derive(%s)] pub struct X { #[arg(long)] a: Vec<String> }' % d)
    i(d + '-default-type-parameter', '#[derive(%s)] pub struct X<T = u8> { #[arg(long)] a: Vec<T> }' % d, '#[derive(%s)] pub struct X { #[arg(long)] a: Vec<u8> }' % d)
    i(d + '-lifetime', "#[derive(%s)] pub struct X<'a> { #[arg(long)] a: &'a str }" % d, g)
    i(d + '-const-parameter', '#[derive(%s)] pub struct X<const N: usize> { #[arg(long)] a: bool }' % d, g)
    i(d + '-recursive-flatten', '#[derive(%s)] pub struct X { #[command(flatten)] a: X }' % d, '#[derive(%s)] pub struct X { #[command(flatten)] a: Inner }' % d)
    for n, a in [('author', 'author'), ('author-value', 'author = "x"'), ('about', 'about = "x"'), ('about-bare', 'about'), ('after-help', 'after_help = "x"'), ('term-width', 'term_width = 80'), ('max-term-width', 'max_term_width = 80'),
                 ('unknown', 'foo'), ('unknown-value', 'foo = "x"'), ('rename-all', 'rename_all = "x"'), ('subcommand', 'subcommand'), ('flatten', 'flatten'), ('after-bare', 'after_long_help'), ('name-bare', 'name'), ('propagate', 'propagate_version = true')]:
        i(d + '-command-' + n, '#[derive(%s)] #[command(%s)] pub struct X { #[arg(long)] a: bool }' % (d, a), '#[derive(%s)] #[command(after_long_help = "x")] pub struct X { #[arg(long)] a: bool }' % d)
    for n, a in [('name', 'name = "x"'), ('version', 'version'), ('long-about', 'long_about = "x"'), ('after', 'after_long_help = "x"')]:
        i(d + '-command-twice-' + n, '#[derive(%s)] #[command(%s, %s)] pub struct X { #[arg(long)] a: bool }' % (d, a, a), '#[derive(%s)] #[command(%s)] pub struct X { #[arg(long)] a: bool }' % (d, a))
        i(d + '-command-twice-apart-' + n, '#[derive(%s)] #[command(%s)] #[command(%s)] pub struct X { #[arg(long)] a: bool }' % (d, a, a), '#[derive(%s)] #[command(%s)] pub struct X { #[arg(long)] a: bool }' % (d, a))
    for n, a, b in [('name', 'name = "x"', 'name = "y"'), ('version', 'version', 'version = "1"'), ('version-back', 'version = "1"', 'version'), ('long-about', 'long_about = "x"', 'long_about = "y"'), ('after', 'after_long_help = "x"', 'after_long_help = "y"')]:
        i(d + '-command-forms-' + n, '#[derive(%s)] #[command(%s, %s)] pub struct X { #[arg(long)] a: bool }' % (d, a, b), '#[derive(%s)] #[command(%s)] pub struct X { #[arg(long)] a: bool }' % (d, b))
        i(d + '-command-forms-apart-' + n, '#[derive(%s)] #[command(%s)] #[command(%s)] pub struct X { #[arg(long)] a: bool }' % (d, a, b), '#[derive(%s)] #[command(%s)] pub struct X { #[arg(long)] a: bool }' % (d, a))
    i(d + '-arg-on-struct', '#[derive(%s)] #[arg(long)] pub struct X { #[arg(long)] a: bool }' % d, g)
i('flatten-a-subcommand-enum', '#[derive(Parser)] pub struct X { #[command(flatten)] a: Cmd }', '#[derive(Parser)] pub struct X { #[command(subcommand)] a: Cmd }')
i('mutually-recursive-flatten', '#[derive(Args)] pub struct A { #[command(flatten)] b: Box<B> }\n#[derive(Args)] pub struct B { #[command(flatten)] a: Box<A> }', '#[derive(Args)] pub struct A { #[command(flatten)] b: B }\n#[derive(Args)] pub struct B { #[arg(long)] a: bool }')
i('nested-flatten-subcommand', '#[derive(Args)] pub struct A { #[command(flatten)] b: Inner, #[command(subcommand)] c: Cmd }\n#[derive(Parser)] pub struct B { #[command(flatten)] a: A }', '#[derive(Args)] pub struct A { #[command(flatten)] b: Inner }\n#[derive(Parser)] pub struct B { #[command(flatten)] a: A, #[command(subcommand)] c: Cmd }')
i('parser-without-args', 'pub struct X { a: bool }\n#[derive(Parser)] pub struct Y { #[command(flatten)] x: X }', '#[derive(Args)] pub struct X { #[arg(long)] a: bool }\n#[derive(Parser)] pub struct Y { #[command(flatten)] x: X }')
i('manual-parser', 'pub struct X;\nimpl Parser for X {}', '#[derive(Parser)] pub struct X {}')
E = '#[derive(Subcommand)] pub enum X { %s }\n#[derive(Parser)] pub struct P { #[command(subcommand)] x: X }'


def e(rule, bad, good):
    i('sub-' + rule, E % bad, E % good)


e('dup-kebab', 'FooBar, Foo_Bar', 'FooBar, FooBaz')
e('dup-kebab-upper', 'HTTPServer, HttpServer', 'HTTPServer, HttpServers')
e('dup-mixed', 'Foo(Inner), Bar, FOO', 'Foo(Inner), Bar, FO_O')
e('dup-struct', 'Ab { x: String }, Cd, ab', 'Ab { x: String }, Cd, ac')
e('dup-raw', 'r#type, Type', 'r#type, Types')
e('tuple-two', 'A(Inner, Inner)', 'A(Inner)')
e('tuple-none', 'A()', 'A')
e('tuple-string', 'A(String)', 'A(Inner)')
e('tuple-subcommand', 'A(Cmd)', 'A(InSub)')
e('newtype-command', '#[command(long_about = "x")] A(Inner)', '#[command(long_about = "x")] A')
e('newtype-doc', '/// Doc.\nA(Inner)', 'A(Inner)')
e('newtype-doc-second', 'B, /// Doc.\nA(Inner)', '/// Doc.\nB, A(Inner)')
e('variant-arg', '#[arg(long)] A', 'A')
e('variant-arg-newtype', '#[arg(long)] A(Inner)', 'A(Inner)')
e('variant-unknown', '#[command(foo)] A', '#[command(long_about = "x")] A')
e('variant-author', '#[command(author)] A { x: String }', '#[command(after_long_help = "x")] A { x: String }')
e('variant-twice', '#[command(long_about = "x", long_about = "y")] A { x: String }', '#[command(long_about = "x")] A { x: String }')
e('variant-exclusive-flatten', 'A { #[arg(long, exclusive = true)] a: bool, #[command(flatten)] i: Inner }', 'A { #[arg(long)] a: bool, #[command(flatten)] i: Inner }')
for n, x in [('struct', 'pub struct X { a: String }'), ('unit', 'pub struct X;'), ('tuple', 'pub struct X(String);'), ('union', 'pub union X { a: u8 }'), ('type-parameter', 'pub enum X<T> { A { t: T } }'), ('lifetime', "pub enum X<'a> { A { t: std::marker::PhantomData<&'a u8> } }"), ('const-parameter', 'pub enum X<const N: usize> { A }')]:
    i('sub-item-' + n, '#[derive(Subcommand)] ' + x, '#[derive(Subcommand)] pub enum X { A { t: String } }')
V = '#[derive(ValueEnum)] %s'


def v(rule, bad, good):
    i('value-' + rule, V % bad, V % good)


v('dup-kebab', 'pub enum X { FooBar, Foo_Bar }', 'pub enum X { FooBar, FooBaz }')
v('dup-lower', '#[value(rename_all = "lower")] pub enum X { FooBar, Foobar }', '#[value(rename_all = "verbatim")] pub enum X { FooBar, Foobar }')
v('dup-upper', '#[value(rename_all = "UPPER")] pub enum X { FooBar, Foobar }', '#[value(rename_all = "PascalCase")] pub enum X { FooBar, Foobar }')
v('dup-explicit', 'pub enum X { A, #[value(name = "a")] B }', 'pub enum X { A, #[value(name = "A")] B }')
v('dup-explicit-both', 'pub enum X { #[value(name = "x")] A, C, #[value(name = "x")] B }', 'pub enum X { #[value(name = "x")] A, C, #[value(name = "y")] B }')
v('dup-raw', 'pub enum X { r#type, Type }', 'pub enum X { r#type, Types }')
for n, s in [('newline', 'a\\nb'), ('esc', '\\x1b'), ('del', '\\x7f'), ('nul', '\\0')]:
    v('control-' + n, 'pub enum X { #[value(name = "%s")] A }' % s, 'pub enum X { #[value(name = "a b")] A }')
v('tuple-variant', 'pub enum X { A(u8) }', 'pub enum X { A }')
v('empty-tuple-variant', 'pub enum X { A() }', 'pub enum X { A }')
v('struct-variant', 'pub enum X { B, A { x: u8 } }', 'pub enum X { B, A }')
v('struct', 'pub struct X { a: u8 }', 'pub enum X { A }')
v('unit-struct', 'pub struct X;', 'pub enum X { A }')
v('union', 'pub union X { a: u8 }', 'pub enum X { A }')
v('type-parameter', 'pub enum X<T> { A, B(T) }', 'pub enum X { A }')
v('rename-unknown', '#[value(rename_all = "Kebab")] pub enum X { A }', '#[value(rename_all = "kebab-case")] pub enum X { A }')
v('rename-twice', '#[value(rename_all = "lower", rename_all = "lower")] pub enum X { A }', '#[value(rename_all = "lower")] pub enum X { A }')
v('rename-not-string', '#[value(rename_all = lower)] pub enum X { A }', '#[value(rename_all = "lower")] pub enum X { A }')
v('container-unknown', '#[value(foo)] pub enum X { A }', 'pub enum X { A }')
v('container-name', '#[value(name = "x")] pub enum X { A }', '#[value(rename_all = "UPPER")] pub enum X { A }')
v('variant-unknown', 'pub enum X { #[value(skip)] A }', 'pub enum X { A }')
v('variant-rename', 'pub enum X { #[value(rename_all = "lower")] A }', 'pub enum X { #[value(name = "lower")] A }')
v('variant-help', 'pub enum X { #[value(help = "x")] A }', 'pub enum X { A }')
v('name-twice', 'pub enum X { #[value(name = "x", name = "x")] A }', 'pub enum X { #[value(name = "x")] A }')
v('name-twice-apart', 'pub enum X { #[value(name = "x")] #[value(name = "y")] A }', 'pub enum X { #[value(name = "x")] A }')
v('name-not-string', "pub enum X { #[value(name = 'x')] A }", 'pub enum X { #[value(name = "x")] A }')

# derive(ValueEnum) with ignore_case: names with upper-case letters could not be matched
CASE = []       # (rule, enum items, all names are free of upper-case letters)
for _n, _ids in [('one', 'Fast'), ('two', 'Fast, SlowPath'), ('three', 'A, BC, HTTPServer')]:
    for _r, _low in [('kebab-case', True), ('snake_case', True), ('lower', True), ('camelCase', _n == 'one'), ('SCREAMING_SNAKE_CASE', False), ('UPPER', False), ('PascalCase', False), ('verbatim', False)]:
        CASE.append(('%s-%s' % (_n, _r), '#[value(rename_all = "%s")] pub enum E { %s }' % (_r, _ids), _low))
for _n, _x, _low in [('all', 'FAST', False), ('first', 'Fast', False), ('last', 'fasT', False), ('digits', '12-X', False), ('none', '12-x', True), ('accent', 'éa', True), ('accent-upper', 'éA', False), ('empty', '', True), ('signs', '@[`{', True)]:
    for _m, _e in [('only', 'X'), ('before', 'X, Other'), ('after', 'Other, X'), ('amid', 'Other, X, Third')]:
        CASE.append(('explicit-%s-%s' % (_n, _m), 'pub enum E { %s }' % _e.replace('X', '#[value(name = "%s")] X' % _x), _low))


def case_witnesses():
    for rule, e, low in CASE:
        for k, t in (('val', 'E'), ('opt', 'Option<E>'), ('vec', 'Vec<E>'), ('optvec', 'Option<Vec<E>>'), ('oo', 'Option<Option<E>>')):
            s = '#[derive(Clone, ValueEnum)] %s\n#[derive(Parser)] pub struct Main { #[arg(long, %signore_case = true)] a: %s }' % (e, 'require_equals = true, ' if k == 'oo' else '', t) + MAIN
            yield ('case/%s-%s' % (rule, k),) + ((None, s) if low else (s, None))


# the entry points exist, so that code is generated for everything above
MAIN = '\npub fn entry() -> bool { <Main as Parser>::try_parse_from(["x"]).is_ok() }\n'


def field_witnesses(wraps):
    for w in wraps:
        for rule, bad, good in FIELDS:
            yield '%s/%s' % (w, rule), WRAP[w] % bad + MAIN, WRAP[w] % good + MAIN


def witnesses(tier):
    yield from field_witnesses(('parser', 'args', 'variant'))
    for rule, bad, good in ITEMS:
        yield 'item/' + rule, bad, good


def decide(r, lib, ws, cov, help):
    import witness
    src = {}
    for k, bad, good in ws:
        for side, s in (('bad', bad), ('good', good)):
            if s is not None:
                src.setdefault(s if s.startswith('#![') else PRE + s, []).append((k, side))
    items = [('w%d' % n, s) for n, s in enumerate(src)]
    res = lib.many(items)
    tag = '' if help else ' (without help)'
    for i, s in items:
        rc, out = res[i]
        cov['evaluations'] += 1
        if witness.crashed((rc, out)):
            # says nothing about acceptance; a crash of the macro itself is C19's finding
            if src[s][0][1] == 'bad':
                continue
        for k, side in src[s]:
            body = s.split('pub struct Opaque;\n')[-1]
            if side == 'bad' and rc == 0:
                r.violation('%s/accepted%s' % (k, tag), 'accepted: the invalid definition `%s`%s compiles: %s' % (k, tag, body.strip()[:300]), definition=s)
            elif side == 'good' and rc != 0:
                r.violation('%s/refused%s' % (k, tag), 'refused: the valid neighbour of `%s`%s does not compile: %s; %s' % (k, tag, body.strip()[:300], witness.first(out)), definition=s, error=out[-2000:])
            cov['refused' if side == 'bad' else 'accepted'] += 1


class Reject:
    technique = 'compile-fail witnesses: each invalid definition next to its nearest valid neighbour, decided by the compiler and the derive macros of the current tree'
    note = 'Covers every rule the macros enforce, in each position a definition can appear; not every possible invalid definition.'

    def run(self, r):
        import witness, matrix, cli
        cov = dict(rules=0, evaluations=0, refused=0, accepted=0, definitions=[])
        for help in ((True,) if r.tier == 'quick' else (True, False)):
            lib = witness.Lib(('help',) if help else (), 'rj%d' % help)
            ws = list(witnesses(r.tier))
            for c in matrix.singles():
                if not matrix.typed_out(*c) and matrix.bad(*c):
                    ws.append(('option/' + matrix.name(*c), cli.rust_crate([('m', matrix.make(*c))]), None))
            if r.tier == 'thorough':
                for c in matrix.pairs():
                    if not matrix.typed_out(*c):
                        s = cli.rust_crate([('m', matrix.make(*c))])
                        ws.append(('option/' + matrix.name(*c), s, None) if matrix.bad(*c) else ('option/' + matrix.name(*c), None, s))
            decide(r, lib, ws, cov, help)
            cov['rules'] = len(ws)
        cov['definitions'] = sorted({k.split('/', 1)[1] for k, _, _ in ws})[:400]
        cov['samples'] = [w[0] for w in ws[:5]]
        cov['explanation'] = '%d rules in every position: %d invalid definitions checked to be refused, %d valid neighbours checked to compile' % (cov['rules'], cov['refused'], cov['accepted'])
        r.coverage = cov
        r.assume = ['the rustc front end decides which programs are accepted', 'the witnesses represent the rules; definitions breaking several rules at once are refused as well']


class ValueEnums:
    """C17: simulation of the definitions with enums, and witnesses that ignore_case is only available where it can work."""
    def __init__(self, beh):
        self.beh = beh

    def run(self, r):
        import behave, witness
        cov = dict(rules=0, evaluations=0, refused=0, accepted=0)
        decide(r, witness.Lib(('help',), 'rj1'), list(case_witnesses()), cov, True)
        behave.check(r, self.beh)
        r.coverage['evaluations'] += cov['evaluations']
        r.coverage['case_witnesses'] = cov
        r.coverage['explanation'] += '; %d enums with upper-case names refused with ignore_case, %d others accepted' % (cov['refused'], cov['accepted'])
