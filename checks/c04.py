"""Expansion of variables and functions: Lang.tla"""
import random
import lib


def source(case):
    defs = [d for d in list(case['vars'].values()) + list(case['fns'].values()) if d]
    random.Random(case['cell'] + str(defs)).shuffle(defs)
    return '\n'.join(defs) + '\n---\n"=%s"\n' % case['cell']


def steps(case):
    return [{'op': 'write', 'path': 'm.csvpp', 'text': source(case)},
            {'op': 'compile', 'main': 'm.csvpp', 'args': {'no_cache': True}}]


def judge(rep, case, obs):
    if obs in ('crash', 'hang'):
        return rep.violation('the compiler %s' % obs, source=source(case))
    o = obs[1]
    if 'panic' in o:
        return rep.violation('the compiler panicked', source=source(case), observed=o)
    if case['ok']:
        if not o['ok'] or o['rows'] != [['=' + case['want']]]:
            return rep.violation('a cell was not expanded to what its definitions say', source=source(case),
                                 expected='=' + case['want'], observed=o)
    elif o['ok']:
        return rep.violation('a call with the wrong number of arguments was accepted', source=source(case), observed=o)
    rep.ok({'source': source(case), 'expanded': case['want'] or 'an error'})


def check(rep, tier, scratch):
    quick = tier == 'quick'
    cases = lib.tlc(scratch, 'Lang', 'Lang_small.cfg', rep.stats)
    if not quick:
        cases += lib.tlc(scratch, 'Lang', 'Lang_large.cfg', rep.stats, timeout=5000)
    cases += lib.tlc(scratch, 'LangGen', 'LangGen.cfg', rep.stats, simulate=700 if quick else 20000, seed=lib.seed(), depth=100,
                     timeout=3000)
    for case, obs in lib.replay(scratch, cases, steps):
        judge(rep, case, obs)
    rep.extra['programs'] = len(cases)
