"""C15: the `help` feature does not change parsing.

Every definition is compiled with and without the feature; each build is simulated against the
reference automaton (which differs between the two only in what an undeclared `--help`/`-h` is).
A clause violated in one of the two builds only is a difference the feature makes. A clause violated
in both is a defect of parsing, which the other properties report."""
import behave, suite
from report import CannotAnalyse


class Twin:
    technique = 'abstract interpretation of the MIR of both builds to a fixpoint, simulated against one reference automaton'

    def __init__(self, names, more, clause):
        self.names, self.more, self.clause = names.split(), more.split(), clause

    def run(self, r):
        names = self.names if r.tier == 'quick' else self.names + [n for n in self.more if n not in self.names]
        found = {True: {}, False: {}}
        cov = dict(definitions=[], undecided=[], evaluations=0, paths=0, functions=set())
        done = {True: set(), False: set()}

        def on_result(x):
            h = x['help']
            und = sorted({w for k, w, wh, n, hh in x['results'] if k == 'unsupported'})
            tag = x['name'] + (' with help' if h else ' without help')
            if und:
                cov['undecided'].append('%s: %s' % (tag, und[0][:200]))
            else:
                done[h].add(x['name'])
            cov['paths'] += x['paths']
            cov['functions'] |= {n for c, n in x['fns'] if c in ('palc', 'wit')}
            for k, w, wh, n, hh in x['results']:
                cov['evaluations'] += n if k != 'unsupported' else 0
                if k == 'violation' and self.clause(w[0]):
                    found[h].setdefault((x['name'], w[0]), (w[1], hh, wh, n))
                if k == 'panic':
                    found[h].setdefault((x['name'], 'panic'), (w, hh, wh, n))

        late, bad = behave.run_suite(names, (True, False), r.tier, on_result, lambda: False, tag='tw')
        compiled = {n for n in names if (n, True) not in bad}, {n for n in names if (n, False) not in bad}
        for (n, h), msg in bad.items():
            if (n, not h) not in bad:
                r.violation('%s/compile' % n, 'definition `%s` compiles only %s the help feature: %s' % (n, 'without' if h else 'with', msg.split('\n')[0]), definition=suite.SUITE[n].decl_rust(True), error=msg)
        both = done[True] & done[False]
        cov['definitions'] = sorted(both)
        for n, h in sorted(late):
            cov['undecided'].append('%s %s help: not finished' % (n, 'with' if h else 'without'))
        for h in (True, False):
            for (n, c), (text, hist, wh, cnt) in found[h].items():
                # the other build must have been decided, to say that it behaves differently
                if (n, c) in found[not h] or n not in done[not h]:
                    continue
                r.violation('%s/%s' % (n, c), '%s: definition `%s`, only %s the help feature: %s; on the arguments [%s]; at %s' % (c, n, 'with' if h else 'without', text, ', '.join(map(str, hist)), wh),
                            definition=suite.SUITE[n].decl_rust(True), arguments=[str(a) for a in hist], at=wh, paths=cnt)
        cov['functions'] = sorted(cov['functions'])
        cov['functions_analysed'] = len(cov['functions'])
        cov['violated_in_both'] = sorted('%s/%s' % k for k in set(found[True]) & set(found[False]))
        cov['samples'] = ['%s: same reference automaton simulated by both builds' % n for n in sorted(both)[:4]]
        cov['explanation'] = '%d definitions decided for every argument list in both builds (%d builds undecided), %d abstract paths' % (len(both), len(cov['undecided']), cov['paths'])
        r.coverage = cov
        r.assume = behave.ASSUME
        if not both and not r.viol:
            raise CannotAnalyse('no definition could be decided in both builds: %s' % '; '.join(cov['undecided'][:3]))
