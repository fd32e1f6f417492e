"""The definitions under analysis: together they use every construct the derive macros accept."""
from cli import *

CA = ('env_const_a()', ('X', 'env_const_a', ()))
CB = ('env_const_b()', ('X', 'env_const_b', ()))
CD = (None, ('X', 'env_const_a', ()))
MODE = VEnum('Mode', [('Fast', None), ('SlowPath', None), ('Other', 'x-other')])

SUITE = {}


def d(name, *items, **k):
    SUITE[name] = Struct(k.pop('as_', 'Main'), *items, **k)


# ---- named arguments: names, aliases, inline forms ----
d('basic', Arg('verbose', 'flag', long=True, short=True), Arg('name', 'opt', long=True, short='n'))
d('alias', Arg('dry_run', 'flag', long=True, aliases=['dry', 'simulate'], short='d', short_aliases=['D', 's']),
  Arg('out_file', 'opt', long='output', aliases=['out'], short='o', short_aliases=['O']))
d('prefixes', Arg('a', 'flag', long='all'), Arg('b', 'opt', long='all-of'), Arg('c', 'flag', long='al'), Arg('e', 'flag', short='é'))
d('shorts', Arg('a', 'flag', short=True), Arg('b', 'opt', short=True), Arg('c', 'oo', short=True, req_eq=True), Arg('e', 'opt', short='e', req_eq=True))
d('reqeq', Arg('color', 'opt', long=True, short=True, req_eq=True), Arg('when', 'oo', long=True, req_eq=True), Arg('x', 'flag', short=True))
d('hyphen', Arg('any', 'opt', long=True, short=True, hyphen='any'), Arg('x', 'flag', short=True))
d('hyphennum', Arg('num', 'opt', long=True, short=True, hyphen='num'), Arg('x', 'flag', short=True))
# ---- value types ----
d('types', Arg('s', 'opt', STRING, long='str'), Arg('o', 'opt', OSSTRING, long='os'), Arg('p', 'opt', PATHBUF, long='path'))
d('types2', Arg('n', 'opt', U32, long='num'), Arg('w', 'opt', W, long='raw'), Arg('v', 'opt', V, short='v'))
d('enums', Arg('mode', 'opt', MODE, long=True, short=True), Arg('pos', 'opt', MODE))
d('nocase', Arg('mode', 'opt', MODE, long=True, short=True, lower=True), Arg('list', 'vec', MODE, long=True, lower=True))
# ---- repeats ----
d('multi', Arg('inc', 'vec', long=True, short='I'), Arg('opt', 'optvec', long=True), Arg('q', 'flag', short=True))
d('delim', Arg('list', 'vec', long=True, short='l', delim=','))
d('delim2', Arg('opt', 'optvec', long=True, delim=':'))
d('delim3', Arg('list', 'vec', short='l', delim=','), Arg('opt', 'optvec', long=True, delim=':'))
d('multireq', Arg('inc', 'vec', long=True, short='I', required=True), Arg('name', 'val', long=True))
# ---- requirements ----
d('required', Arg('name', 'val', long=True, short=True), Arg('kind', 'opt', long=True, required=True), Arg('flag', 'flag', long=True))
d('constraint', Arg('a', 'flag', short=True, requires=['b']), Arg('b', 'opt', short=True), Arg('c', 'opt', short=True, conflicts=['a', 'b']))
d('exclusive', Arg('a', 'flag', short=True, exclusive=True), Arg('b', 'vec', short=True), Arg('p', 'opt'))
d('posconstraint', Arg('a', 'opt', short=True, requires=['file']), Arg('file', 'opt', conflicts=['c']), Arg('c', 'flag', short=True))
# ---- defaults ----
d('defaults', Arg('a', 'val', long=True, default='1x'), Arg('b', 'val', long=True, default_t=CB), Arg('c', 'opt', long=True, default='zz'))
d('defaults2', Arg('v', 'vec', long=True, default='x,y', delim=','), Arg('n', 'val', U32, default='7'), Arg('m', 'val', MODE, long=True, default='slow-path'),
  Arg('d', 'val', long=True, default_t=CD))
d('emptydef', Arg('a', 'vec', long=True, default=''), Arg('b', 'oo', long=True, req_eq=True, default=''), Arg('c', 'optvec', short=True, default='', delim=','))
d('emptydef2', Arg('d', 'opt', long=True, default=''), Arg('e', 'val', OSSTRING, long=True, default=''))
d('emptypos', Arg('a', 'opt', default=''), Arg('v', 'vec', default=''))
d('defaults3', Arg('when', 'oo', long=True, req_eq=True, default='auto'), Arg('keep', 'val', STRING, long=True, default='', requires=['flag']), Arg('flag', 'flag', long=True, conflicts=['when']))
d('defreq', Arg('dst', 'val', long=True, default='x'), Arg('src', 'opt', long=True, requires=['dst'], conflicts=['by']), Arg('by', 'val', short=True, default_t=CB))
d('defpos', Arg('dst', 'val', default='x'), Arg('rest', 'vec', requires=['dst'], default='r'), Arg('q', 'flag', short=True, conflicts=['dst']))
d('delim4', Arg('list', 'vec', long=True, delim='é'), Arg('os', 'vec', OSSTRING, long=True, delim='日'))
# ---- positionals ----
d('pos', Arg('src', 'val'), Arg('dst', 'opt'), Arg('flag', 'flag', short='f'))
d('posvar', Arg('first', 'val'), Arg('rest', 'vec'), Arg('name', 'opt', long=True))
d('posvarreq', Arg('first', 'opt'), Arg('rest', 'vec', required=True), Arg('x', 'flag', short=True))
d('trailing', Arg('cmd', 'val'), Arg('args', 'vec', trailing=True), Arg('v', 'flag', short=True))
d('trailing1', Arg('args', 'vec', OSSTRING, trailing=True), Arg('v', 'flag', short=True))
d('last', Arg('file', 'opt'), Arg('cmd', 'vec', last=True), Arg('v', 'flag', short=True))
d('lastreq', Arg('files', 'vec'), Arg('cmd', 'optvec', last=True, required=True), Arg('v', 'opt', short=True))
d('posdelim', Arg('ids', 'vec', U32, delim=','), Arg('x', 'flag', long=True))
d('outoforder', Arg('tail', 'vec', last=True), Arg('one', 'val'), Arg('v', 'flag', short=True), Arg('two', 'opt'), Arg('many', 'vec'))
d('pos2', Arg('a', 'opt'), Arg('b', 'val'), Arg('c', 'opt'))
d('pos3', Arg('one', 'val', U32, default='1'), Arg('two', 'val', default_t=CB), Arg('rest', 'optvec', OSSTRING, required=True))
# ---- flattening ----
INNER = Struct('Inner', Arg('inner_flag', 'flag', long=True, short='i'), Arg('value', 'val', long=True))
DEEP = Struct('Deep', Arg('deep', 'opt', long=True), Flat('inner', INNER))
d('flat', Arg('own', 'flag', long=True), Flat('inner', INNER), Arg('file', 'opt'))
d('flatdeep', Flat('d', DEEP), Arg('x', 'opt', short=True))
OPTS_A = Struct('OptsA', Arg('a', 'flag', short=True), Arg('need', 'opt', long=True, requires=['a']))
OPTS_B = Struct('OptsB', Arg('b', 'flag', short=True, conflicts=['list']), Arg('list', 'vec', long=True, delim=','))
d('flattwo', Flat('oa', OPTS_A), Flat('ob', OPTS_B))
# ---- subcommands ----
ADD = Struct('AddArgs', Arg('name', 'val'), Arg('force', 'flag', long=True, short=True))
CMD = Enum('Cmd', ('Add', 'tuple', ADD), ('Remove', 'struct', Struct('Rm', Arg('id', 'opt', long=True), Arg('all', 'flag', short=True))), ('ListAll', 'unit', None))
d('sub', Arg('verbose', 'flag', short=True), Sub('cmd', CMD))
d('subopt', Arg('count', 'opt', long=True, short=True), Sub('cmd', CMD, optional=True))
d('subpos', Arg('dir', 'opt'), Sub('cmd', Enum('Cmd', ('Go', 'unit', None), ('GoTo', 'tuple', ADD)), optional=True))
d('subpos2', Arg('dir', 'val'), Arg('more', 'vec'), Sub('cmd', Enum('Cmd', ('Go', 'unit', None))))
SUB2 = Struct('Remote', Arg('url', 'opt', long=True), Sub('action', Enum('Action', ('Show', 'unit', None), ('Set', 'struct', Struct('SetX', Arg('key', 'val'))))))
d('subsub', Arg('q', 'flag', short=True), Sub('cmd', Enum('Cmd', ('Remote', 'tuple', SUB2), ('Show', 'unit', None))))
d('subreq', Arg('name', 'val', long=True), Arg('x', 'flag', long=True, exclusive=True), Sub('cmd', Enum('Cmd', ('Run', 'struct', Struct('Run', Arg('file', 'val', long=True)))), optional=True))
d('longsub', Arg('x', 'flag', short=True), Sub('cmd', Enum('Cmd', ('RemoveEverythingThereIsToRemove', 'unit', None, 'Remove it all.'), ('Go', 'unit', None, 'Go.'), ('GoTo', 'unit', None))))
d('subunits', Arg('x', 'opt', short=True), Sub('cmd', Enum('Cmd', ('Go', 'unit', None), ('GoTo', 'unit', None), ('Act', 'struct', Struct('Act', Arg('p', 'vec'))), ('G', 'unit', None), ('É2', 'unit', None)), optional=True))
# ---- scoping ----
d('global', Arg('verbose', 'flag', long=True, short=True, glob=True), Arg('local', 'flag', long=True),
  Sub('cmd', Enum('Cmd', ('Run', 'struct', Struct('Run', Arg('local', 'opt', long=True), Arg('x', 'flag', short=True))))))
d('global2', Arg('config', 'opt', long=True, short=True, glob=True),
  Sub('cmd', Enum('Cmd', ('Run', 'struct', Struct('Run', Arg('con', 'opt', long=True), Arg('p', 'opt'))))))
d('shadow', Arg('level', 'opt', long=True, short=True, glob=True),
  Sub('cmd', Enum('Cmd', ('Inner', 'struct', Struct('In', Arg('level', 'flag', long=True), Arg('l', 'vec', short='x'))))))
GL = Struct('Gl', Arg('glob', 'opt', long=True, short=True, glob=True), Arg('nonglob', 'flag', long=True))
SL = Struct('Sl', Arg('glob', 'flag', short=True))
d('globflat', Flat('g', GL), Sub('cmd', Enum('Cmd', ('Run', 'struct', Struct('Run', Flat('sl', SL), Arg('p', 'opt'))))))
d('globdeep', Arg('v', 'vec', short=True, glob=True),
  Sub('cmd', Enum('Cmd', ('One', 'tuple', Struct('One', Arg('w', 'flag', short=True, glob=True), Sub('cmd', Enum('Cmd2', ('Two', 'unit', None)), optional=True))))))
d('flatshadow', Arg('level', 'opt', long=True), Flat('in_', Struct('FlIn', Arg('level', 'flag', long=True, short=True), Arg('l', 'opt', short='x'))))
d('midlocal', Arg('g', 'flag', long=True, glob=True), Sub('s', Enum('S', ('Mid', 'struct', Struct('Mid', Arg('g', 'flag', long=True),
  Sub('t', Enum('T', ('Leaf', 'unit', None)), optional=True))))))
d('globh', Arg('host', 'flag', short='h', glob=True), Sub('cmd', Enum('Cmd', ('Run', 'struct', Struct('Run', Arg('x', 'flag', short=True))))))
d('globhelp', Arg('assist', 'opt', long='help', glob=True, req_eq=True), Sub('cmd', Enum('Cmd', ('Run', 'struct', Struct('Run', Arg('p', 'opt'))), ('Go', 'unit', None)), optional=True))
# ---- own help options, documentation ----
d('ownhelp', Arg('h', 'flag', short=True), Arg('host', 'opt', long=True))
d('ownhelp2', Arg('help', 'opt', long=True), Arg('x', 'flag', short=True))
d('docs', Arg('alpha', 'val', long=True, short=True, doc='The first letter.'), Arg('secret', 'flag', long=True, hide=True, doc='Never shown.'),
  Arg('level', 'val', U32, long=True, default='3', value_name='LVL', doc='How deep.'),
  doc='A tool.\n\nWith a longer description.', after='See also: nothing.')
d('docs2', Arg('file', 'val', doc='Input file.'), Arg('more', 'vec', doc='More files.'),
  Sub('cmd', Enum('Cmd', ('Build', 'unit', None, 'Build it.'), ('TestAll', 'tuple', Struct('TestArgs', Arg('fast', 'flag', long=True, doc='Be fast.'), doc='Test all of it.\n\nReally all.')), ('Run', 'struct', Struct('RunX', Arg('x', 'flag', short=True)), 'Run it.')), optional=True),
  doc='A tool with commands.')
d('hidden', Arg('kept', 'opt', long=True, hide=True, doc='Kept from view.'), Arg('seen', 'val', long=True), Arg('away', 'opt', hide=True, doc='Also away.'), Arg('shown', 'opt', doc='In plain view.'))
d('flatusage', Flat('oa', Struct('FuA', Arg('level', 'opt', long=True, doc='First group.'))), Flat('ob', Struct('FuB', Arg('need', 'val', long=True, doc='Second group.'))), Arg('must', 'val', short='m'))
d('flatusage2', Flat('ob', Struct('FuC', Arg('must', 'val', long=True), Arg('sec', 'flag', short='s', hide=True))), Arg('x', 'flag', long=True, hide=True))
d('about', Arg('x', 'val', long='ex', default_t=CB, doc='First paragraph.\n\nSecond paragraph.', help_attr=True),
  Sub('cmd', Enum('Cmd', ('Alpha', 'tuple', Struct('Al', long_about=True)), ('Be', 'tuple', Struct('Be', Arg('m', 'val', MODE, long=True, default_t=('Mode::SlowPath', ('A', None, 1, ())), default_shown='slow-path'), doc='Hidden by long_about.', long_about='Be about.'))), optional=True),
  long_about='All about it.\nIn two lines.', after='The end.')
# ---- spelling of attributes ----
d('style', Arg('xs', 'vec', long='xs', aliases=['ex', 'ecks'], delim=',', style=1), Arg('b', 'flag', short='b', short_aliases=['B', 'c'], conflicts=['xs', 'mode'], style=1),
  Arg('mode', 'opt', MODE, long=True, value_enum=True, doc='The mode.', help_attr=True))
d('rawid', Arg('r#type', 'flag', long=True), Arg('r#move', 'opt', long=True, short=True, requires=['r#type']), Arg('r#in', 'opt', conflicts=['r#type']))
d('rawsub', Arg('r#ref', 'opt', short=True), Sub('r#do', Enum('Cmd', ('r#fn', 'unit', None), ('r#loop', 'struct', Struct('RLoop', Arg('r#let', 'val', long=True))))))
# ---- derive(ValueEnum): every renaming rule ----
IDENTS = [('Fast', None), ('SlowPath', None), ('HTTPServer', None), ('V2Alpha', None), ('Given', 'x Given=1')]
for _n, _r in [('kebab', None), ('kebab2', 'kebab-case'), ('snake', 'snake_case'), ('scream', 'SCREAMING_SNAKE_CASE'), ('pascal', 'PascalCase'), ('camel', 'camelCase'),
               ('lower', 'lower'), ('upper', 'UPPER'), ('verbatim', 'verbatim')]:
    d('en_' + _n, Arg('e', 'opt', VEnum('En', IDENTS, _r), long=True))
d('en_nocase', Arg('e', 'vec', VEnum('En', [('Fast', None), ('SlowPath', None), ('r#type', None), ('Given', 'upper')], None), short=True, lower=True))
d('en_odd', Arg('e', 'vec', VEnum('En', [('A', ' pad '), ('B', 'quo"te'), ('C', 'back\\slash'), ('D', 'Ünï'), ('E', '-dash'), ('F', 'a,b'), ('G', '{x}'), ('H', 'nbsp\u00a0'), ('I', 'x'), ('J', 'X'), ('K', '0')]), short=True))
d('manypos', *[Arg('p%d' % i, 'opt', doc='Place %d.' % i) for i in range(11)])
d('oddlong', Arg('a', 'opt', long='two words', aliases=['{x}']), Arg('d', 'flag', long=' pad '))
d('oddshort', Arg('b', 'flag', short='"', short_aliases=['{']), Arg('c', 'flag', short="'"), Arg('d', 'flag', short=' '))
d('en_one', Arg('e', 'opt', VEnum('En', [('Only', '')]), short=True))
d('en_default', Arg('e', 'val', VEnum('En', [('Fast', None), ('SlowPath', None), ('Fas', None)], 'UPPER'), long=True, default_t=('En::SlowPath', ('A', None, 1, ())), default_shown='SLOWPATH'),
  Arg('f', 'val', VEnum('En', [('Fast', None), ('SlowPath', None), ('Fas', None)], 'UPPER'), long=True, default='FAS'))
