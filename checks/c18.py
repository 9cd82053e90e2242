"""Layout is of no significance: Layout.tla"""
import random
import lib


def spell(t):
    return t.replace('~', '\n').replace('@', '"').replace('`', 'é').replace('|', '\t')


DEP = '# `\n\ndep_v := 5\n---\nignored\n'.replace('`', 'é')


def files(case):
    t, dep = spell(case['text']), DEP
    if case['crlf']:
        t, dep = t.replace('\n', '\r\n'), dep.replace('\n', '\r\n')
    return {'main.csvpp': t, 'dep.csvpp': dep}


def steps(case):
    o = [{'op': 'write', 'path': p, 'text': t} for p, t in files(case).items()]
    kw = {'gsheets': []} if lib.HOOKS else {}
    return o + [dict({'op': 'compile', 'main': 'main.csvpp', 'args': {'no_cache': True, 'sheet': 's'}}, **kw)]


def judge(rep, case, obs, plain):
    given = dict(module=case['which'], text=files(case)['main.csvpp'])
    if obs in ('crash', 'hang') or 'panic' in obs[-1]:
        return rep.violation('the compiler crashed', observed=obs, **given)
    o = obs[-1]
    want = [[spell(c) for c in r] for r in case['want']]
    if not want:
        if o['ok']:
            return rep.violation('a mistake is not noticed with some layout', observed=o, **given)
    elif not o['ok']:
        return rep.violation('a module is rejected because of its layout', observed=o, **given)
    elif o['rows'] != want:
        # the last cell of the module is lost if it's blank
        key = 'last-blank-cell' if o['rows'] == want[:-1] + [want[-1][:-1]] and want[-1][-1] == '' else None
        return rep.violation('the cells depend on the layout', key=key, expected=want, observed=o['rows'], **given)
    elif plain is not None and o.get('gsheets') != plain.get('gsheets'):
        return rep.violation('the options depend on the layout', expected=plain.get('gsheets'), observed=o.get('gsheets'), **given)
    rep.extra[case['which']] = rep.extra.get(case['which'], 0) + 1
    rep.ok(given)


def check(rep, tier, scratch):
    rng = random.Random(lib.seed())
    quick = tier == 'quick'
    one = lib.tlc(scratch, 'Layout', 'Layout_one.cfg', rep.stats)
    cases = list(one)
    if not quick:
        two = lib.tlc(scratch, 'Layout', 'Layout_pairs.cfg', rep.stats, timeout=3000)
        rng.shuffle(two)
        cases += two[:300000]
    cases += lib.tlc(scratch, 'Layout', 'Layout_any.cfg', rep.stats, simulate=2500 if quick else 60000, depth=300, seed=lib.seed(), timeout=3000)
    for c in cases:
        c['crlf'] = rng.random() < .25
    plain = {}
    for case, obs in lib.replay(scratch, cases, steps):
        # the first one of each module is the one without any layout
        judge(rep, case, obs, plain.get(case['which']))
        if case['which'] not in plain and obs not in ('crash', 'hang') and obs[-1].get('ok'):
            plain[case['which']] = obs[-1]
