"""Formula structure: Formula.tla"""
import lib


def join(toks, compact):
    out = ''
    for t in toks:
        t = t.replace("'", '"')
        if out and (not compact or glue(out[-1], t[0])):
            out += ' '
        out += t
    return out


def glue(a, b):
    """would the two tokens become another one if they weren't separated?"""
    w = lambda c: c.isalnum() or c in '.:$!_'
    return (w(a) and w(b)) or a == b == '"' or (a in '<>' and b in '=><')


def source(case, compact=False):
    return '"=' + join(case['t'], compact).replace('"', '""') + '"\n'


def steps(case):
    o = []
    for compact in (False, True):
        text = source(case, compact)
        o.append({'op': 'write', 'path': 'm.csvpp', 'text': text})
        o.append({'op': 'compile', 'main': 'm.csvpp', 'args': {'no_cache': True}})
    return o


def judge(rep, case, obs):
    if obs in ('crash', 'hang'):
        return rep.violation('the compiler %s' % obs, case=case, source=source(case))
    for compact, o in ((False, obs[1]), (True, obs[3])):
        src = source(case, compact)
        if 'panic' in o:
            return rep.violation('the compiler panicked', case=case, source=src, observed=o)
        if not case['ok']:
            if o['ok']:
                return rep.violation('accepted something which is not a formula', case=case, source=src, observed=o)
            continue
        want = '=' + case['want'].replace("'", '"')
        right = '=' + case['right'].replace("'", '"')
        bare = lambda s: s.replace('a""b', 'a"b')     # a text which has quotes in it
        if not o['ok']:
            return rep.violation('rejected a formula', case=case, source=src, expected=want, observed=o)
        got = o['rows'][0][0] if o['rows'] and o['rows'][0] else None
        if o['rows'] != [[want]]:
            key = ('equal-precedence-grouping' if o['rows'] == [[right]] else
                   'quotes-in-text' if o['rows'] == [[bare(want)]] else
                   'equal-precedence-grouping' if o['rows'] == [[bare(right)]] else None)
            return rep.violation('a formula was compiled to another one', case=case, source=src, expected=want,
                                 observed=got, key=key)
    rep.ok({'formula': source(case), 'compiled': case['want'] or 'rejected'})


def check(rep, tier, scratch):
    runs = [('Formula_literals.cfg', None), ('Formula_ops.cfg', None), ('Formula_levels.cfg', None), ('Formula_calls.cfg', None)]
    if tier == 'thorough':
        runs = [('Formula_literals3.cfg', None), ('Formula_ops6.cfg', None), ('Formula_levels.cfg', None), ('Formula_levels7.cfg', None), ('Formula_calls7.cfg', None)]
    cases = []
    for cfg, sim in runs:
        cases += lib.tlc(scratch, 'Formula', cfg, rep.stats, timeout=700 if tier == 'quick' else 5000)
    n = 250 if tier == 'quick' else 4000      # for each of TLC's workers
    cases += lib.tlc(scratch, 'FormulaGen', 'FormulaGen.cfg', rep.stats, simulate=n, seed=lib.seed(), depth=100)
    for case, obs in lib.replay(scratch, cases, steps):
        judge(rep, case, obs)
    rep.extra['formulas'] = sum(c['ok'] for c in cases)
    rep.extra['not_formulas'] = sum(not c['ok'] for c in cases)
