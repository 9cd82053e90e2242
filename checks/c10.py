"""The options of rows and cells: Options.tla"""
import random
import lib
import options


def steps(case):
    o = [{'op': 'write', 'path': 'main.csvpp', 'text': case['source']}]
    if case['gs']:
        o.append({'op': 'compile', 'main': 'main.csvpp', 'gsheets': [], 'args': {'no_cache': True}})
    else:
        o.append({'op': 'compile', 'main': 'main.csvpp', 'out': 'out.xlsx', 'write': True, 'args': {'no_cache': True, 'sheet': 's'}})
        o.append({'op': 'xlsx', 'path': 'out.xlsx', 'sheet': 's'})
    return o


def judge(rep, case, obs):
    s = case['source']
    if obs in ('crash', 'hang') or 'panic' in obs[1]:
        return rep.violation('the compiler crashed', source=s, observed=obs)
    o = obs[1]
    if case['bad']:
        if o['ok']:
            return rep.violation('wrong options were accepted', source=s, wrong=case['bad'], observed=o)
        return rep.ok()
    if not o['ok']:
        return rep.violation('options were rejected', source=s, observed=o)
    at = options.places(case)
    if o['rows'] != [['t1', 't2']] * case['fill'] + [['t3', 't4']]:
        return rep.violation('the values are wrong', source=s, observed=o['rows'])
    cells = options.gsheets_cells(o['gsheets']) if case['gs'] else None
    found = False
    for c, r, k in at:
        if case['gs']:
            diffs = options.gsheets_differences(case['cells'][k]['gs'], options.gsheets_options(cells[r][c]))
        else:
            diffs = options.excel_differences(case['cells'][k]['xl'], options.excel_options(obs[2], c, r), options.address(c, r))
        for what, want, got, key in diffs:
            rep.violation('the %s of a cell is wrong in %s' % (what, 'the Google Sheet' if case['gs'] else 'the Excel file'), key=key,
                          source=s, cell=options.address(c, r), expected=want, observed=got)
            found = True
    if not found:
        rep.ok(dict(source=s))


def given(x):
    return x.replace('`', '😀').replace('|', '\n') if isinstance(x, str) else [given(y) for y in x] if isinstance(x, list) else x


def judge_arguments(rep, case, obs):
    """a row for each of the values"""
    s = case['source']
    if obs in ('crash', 'hang') or 'panic' in obs[1]:
        return rep.violation('the compiler crashed', source=s, observed=obs)
    o = obs[1]
    if not case['ok']:
        if o['ok']:
            return rep.violation('a wrong value was accepted', source=s, observed=o)
        return rep.ok()
    if not o['ok']:
        return rep.violation('the value of an option was rejected', source=s, observed=o)
    if o['rows'] != [['t']] * len(case['values']):
        return rep.violation('the values of the cells are wrong', source=s, observed=o['rows'])
    cells = options.gsheets_cells(o['gsheets']) if case['gs'] else None
    found = False
    for r, v in enumerate(case['values']):
        if case['gs']:
            diffs = options.gsheets_differences({v['attr']: v['gs']}, options.gsheets_options(cells[r][0]))
        else:
            diffs = options.excel_differences({v['attr']: v['xl']}, options.excel_options(obs[2], 0, r), options.address(0, r))
        for what, want, got, key in diffs:
            rep.violation('the %s is not what was written in %s' % (what, 'the Google Sheet' if case['gs'] else 'the Excel file'), key=key,
                          source=case['lines'][r], expected=want, observed=got)
            found = True
    if not found:
        rep.ok(dict(source=s))


def arguments(cases, rng):
    """modules with these values of options, several in each if there's nothing wrong with them"""
    lines = [dict(c['a'], **{k: given(c['a'][k]) for k in ('text', 'gs', 'xl')}) for c in cases]
    good, bad = [v for v in lines if v['ok']], [v for v in lines if not v['ok']]
    for ok, values in [(True, good[k:k + 40]) for k in range(0, len(good), 40)] + [(False, [v]) for v in bad]:
        rows = [options.quoted('[[' + v['text'] + rng.choice([']]t', ' ]]t', '/nf=n]]t'])) for v in values]
        yield dict(ok=ok, values=values, lines=rows, source='\n'.join(rows) + '\n')


def check(rep, tier, scratch):
    rng = random.Random(lib.seed())
    quick = tier == 'quick'

    def tlc(name, n, **kw):
        cases = lib.tlc(scratch, 'Options', 'Options_%s.cfg' % name, rep.stats, **kw)
        rng.shuffle(cases)
        return cases[:n]
    cases = tlc('single', 10**9) + tlc('bad', 10**9)
    if quick:
        cases += tlc('pairs', 6000)
    else:
        cases += tlc('pairs', 10**9) + tlc('few3', 120000, timeout=3000) + tlc('bad1', 10**9)
    cases += tlc('random', 10**9, simulate=250 if quick else 4000, depth=18, seed=lib.seed())
    cases += tlc('randombad', 10**9, simulate=100 if quick else 1000, depth=18, seed=lib.seed() + 1)
    todo = []
    for c in cases:
        c['source'] = options.render(c, rng)
        for gs in (True, False):
            # what's wrong is wrong for all of them
            if (not c['bad'] or gs or not lib.HOOKS) and (lib.HOOKS or not gs):
                todo.append(dict(c, gs=gs))
    values = []
    for name, kw in (('all', {}), ('long', dict(simulate=300 if quick else 5000, depth=10, seed=lib.seed()))):
        found = lib.tlc(scratch, 'Arguments', 'Arguments_%s.cfg' % name, rep.stats, **kw)
        rng.shuffle(found)
        values += found
    rep.extra['values of options'] = len(values)
    for c in arguments(values, rng):
        for gs in (True, False):
            if (c['ok'] or gs or not lib.HOOKS) and (lib.HOOKS or not gs):
                todo.append(dict(c, gs=gs))
    for case, obs in lib.replay(scratch, todo, steps):
        (judge_arguments if 'values' in case else judge)(rep, case, obs)
