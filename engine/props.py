"""Which definitions and which reference clauses decide each property."""

BEH = ('accept', 'reject', 'unread', 'value')


def is_beh(c):
    return c.split(':')[0] in BEH


def pre(*ps):
    return lambda c: c.split(':')[0] in ps


def only(*cs):
    return lambda c: c in cs


class Beh:
    """Simulation of the analysed parser against the reference automaton on a family of definitions."""

    def __init__(self, names, clause=is_beh, kinds=('violation',), more=(), help=(True,), more_help=(True, False), gen=''):
        self.gen = gen
        self.names, self.clause, self.kinds = names.split(), clause, kinds
        self.more = self.names + [x for x in (more.split() if more else ()) if x not in self.names]
        self.help, self.more_help = help, more_help


NAMED = 'oddlong oddshort basic alias prefixes shorts reqeq hyphen hyphennum style rawid '
VALUES = 'types types2 enums nocase '
REPEATS = 'multi delim delim2 delim3 delim4 multireq style '
REQS = 'required constraint exclusive posconstraint rawid '
DEFAULTS = 'emptydef emptydef2 emptypos defreq defpos defaults defaults2 defaults3 en_default pos3 '
POS = 'pos pos2 pos3 posvar posvarreq trailing trailing1 last lastreq posdelim outoforder hidden manypos '
FLAT = 'flatshadow flat flatdeep flattwo flatusage flatusage2 '
SUBS = 'longsub subunits sub subopt subpos subpos2 subsub subreq rawsub about '
SCOPE = 'midlocal globh globhelp global global2 shadow globflat globdeep '
HELP = 'ownhelp ownhelp2 docs docs2 about hidden flatusage flatusage2 '
ENUMS = 'en_kebab en_kebab2 en_snake en_scream en_pascal en_camel en_lower en_upper en_verbatim en_nocase en_one en_default en_odd '
ALL = ' '.join(dict.fromkeys((NAMED + VALUES + REPEATS + REQS + DEFAULTS + POS + FLAT + SUBS + SCOPE + HELP + ENUMS).split()))
CONTENT = ('help:usage', 'help:layout', 'help:arg', 'help:alien', 'help:doc', 'help:default', 'help:sub', 'help:subdoc', 'help:about', 'help:after', 'help:hidden')


def enum_clause(c):
    return is_beh(c) or c in ('text:invalid', 'help:default')


import effects
import twin
import matrix
import reject
import crash

CHECKS = {
    'C01': Beh('longsub delim4 basic shorts hyphennum types types2 nocase delim3 multireq exclusive posconstraint defaults2 posvarreq trailing last posdelim flatdeep sub subpos subsub global globdeep docs docs2 ownhelp2 about hidden style rawsub en_one',
               lambda c: False, ('panic',), more=ALL, gen='named pos con flat sub glob help def'),
    'C02': Beh('subunits basic shorts multi pos pos2 posvar trailing last sub subpos subpos2 delim posdelim flat', more=ALL, gen='pos sub named flat'),
    'C03': Beh('basic alias prefixes shorts reqeq hyphen hyphennum multi types global2', more=NAMED + VALUES + REPEATS + DEFAULTS + SCOPE, gen='named def'),
    'C04': Beh('defpos pos pos2 posvar last lastreq trailing trailing1 subpos2 posdelim outoforder ownhelp posvarreq', more=POS + SUBS + SCOPE, gen='pos sub'),
    'C05': Beh('manypos pos pos2 pos3 posvar posvarreq trailing trailing1 outoforder last lastreq subpos posdelim', more=POS + SUBS + FLAT + REQS, gen='pos'),
    'C06': Beh('subunits longsub globhelp sub subpos subpos2 subopt subsub subreq rawsub', more=SUBS + SCOPE, gen='sub glob'),
    'C07': Beh('oddlong oddshort basic alias prefixes shorts reqeq multi flat flattwo style rawid', more=NAMED + REPEATS + FLAT + SCOPE, gen='named flat'),
    'C08': Beh('midlocal flatshadow globh globhelp global global2 shadow globdeep globflat flat flatdeep', more=SCOPE + FLAT + SUBS, gen='glob flat'),
    'C09': Beh('delim4 basic shorts multi delim delim2 delim3 posdelim multireq globdeep reqeq style', more=NAMED + REPEATS + SCOPE + POS, gen='named con pos'),
    'C10': Beh('defreq defpos required constraint exclusive posconstraint multireq subreq defaults3 flattwo lastreq pos sub style rawid', more=REQS + REPEATS + SUBS + FLAT + DEFAULTS + POS, gen='con flat def'),
    'C11': Beh('emptydef emptydef2 emptypos defreq defpos defaults defaults2 defaults3 docs en_default pos3', more=DEFAULTS + REQS + HELP, gen='def con'),
    'C12': Beh('delim4 types types2 enums nocase delim reqeq trailing1 posdelim hyphen pos3 en_nocase', more=VALUES + REPEATS + NAMED + POS + ENUMS, gen='named pos def'),
    'C13': Beh('basic alias shorts reqeq required enums types2 posconstraint exclusive sub subreq posdelim rawid en_one', pre('text'), more=ALL, gen='con named sub'),
    'C14': Beh('globh globhelp basic ownhelp ownhelp2 sub hyphen pos required subsub last global posconstraint', lambda c: c.startswith('help:') and c not in CONTENT, more=ALL, more_help=(True,), gen='help glob sub'),
    'C15': twin.Twin('globh globhelp subunits basic shorts alias reqeq hyphen types2 enums delim constraint exclusive defaults2 pos posvar trailing lastreq flat sub subpos subsub global ownhelp ownhelp2', ALL,
                     lambda c: is_beh(c) or c.split(':')[0] == 'text' or c in ('help:missing', 'help:unasked')),
    'C16': effects.Effects(),
    'C17': reject.ValueEnums(Beh(ENUMS + 'enums nocase', enum_clause, more=ENUMS + 'enums nocase defaults2 about style')),
    'C18': reject.Reject(),
    'C19': crash.Crash(),
    'C20': Beh('manypos longsub oddlong oddshort docs docs2 flatusage flatusage2 about hidden subsub pos lastreq style en_default', only(*CONTENT), more=ALL, more_help=(True,), gen='help'),
    'C21': matrix.Matrix(),
}
