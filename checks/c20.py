"""What is up to date isn't compiled again: Cache.tla"""
import lib
from c01 import SRC, describe, histories, steps


def judge(rep, case, obs):
    info = dict(history=describe(case), sources=SRC)
    if obs in ('crash', 'hang'):
        return rep.violation('the compiler %s' % obs, **info)
    for i, e in case['at']:
        # the files which were written, all the others have a time in the past
        wrote = sorted(f[:-6] for f in obs[i + 1] if f.endswith('.csvpo'))
        if wrote != sorted(e['wrote']):
            return rep.violation('compiled again what is up to date, or not what has to be', step=e, expected=sorted(e['wrote']), observed=wrote, **info)
    rep.ok(dict(history=describe(case)))


def check(rep, tier, scratch):
    cases = histories(rep, tier, scratch, still=False)
    for case, obs in lib.replay(scratch, cases, lambda case: steps(case, True)):
        judge(rep, case, obs)
    rep.extra['histories'] = len(cases)
    rep.extra['object files written'] = sum(len(e['wrote']) for c in cases for _, e in c['at'])
