"""References to cells, rows and fills by the name they have been given: Sheet.tla"""
import random
import lib
import sheets


def text(k, c):
    return 't%dc%d' % (k, c)


def src(case):
    return sheets.source(case, True, text, case['style'])


def steps(case):
    if case.get('far'):
        return [{'op': 'write', 'path': 'main.csvpp', 'text': src(case)},
                {'op': 'compile', 'main': 'main.csvpp', 'norows': True, 'gsheets': [],
                 'args': {'no_cache': True, 'gs': 'abc', 'sheet': 's', 'x': case['x'], 'y': case['y']}}]
    return [{'op': 'write', 'path': 'main.csvpp', 'text': src(case)},
            {'op': 'compile', 'main': 'main.csvpp', 'args': {'no_cache': True}}]


def judge(rep, case, obs):
    s = src(case)
    if obs in ('crash', 'hang') or 'panic' in obs[-1]:
        return rep.violation('the compiler crashed', source=s, observed=obs)
    o = obs[-1]
    if not case['ok']:
        if o['ok']:
            return rep.violation('several infinite fills were accepted', source=s)
        return rep.ok()
    if not o['ok']:
        return rep.violation('a program was not compiled', source=s, observed=o)
    if case.get('far'):
        return judge_remote(rep, case, o, s)
    want = sheets.expected(case, text)
    got = o['rows']
    if len(got) != len(want):
        return rep.violation('references were checked, but there are %d instead of %d rows' % (len(got), len(want)), source=s)
    for (n, k, w), g in zip(want, got):
        if sheets.trim(w) != sheets.trim(g):
            return rep.violation('a name was resolved to the wrong reference', source=s, row=n, expected=w, observed=g)
    rep.ok(dict(source=s))


def formulas(requests):
    """(row, column) -> formula"""
    o = {}
    for r in requests['requests']:
        u = r['updateCells']
        start = u['start']
        for y, row in enumerate(u['rows'], start.get('rowIndex', 0)):
            for x, c in enumerate(row.get('values', []), start.get('columnIndex', 0)):
                f = c.get('userEnteredValue', {}).get('formulaValue')
                if f is not None:
                    o[y, x] = f
    return o


def judge_remote(rep, case, o, s):
    """formulas of a Google Sheet refer to where the cells are there"""
    def expected(which, dy):
        e = {}
        for t in case['rows']:
            for j in range(t['n']):
                for c, w in enumerate(t[which]):
                    if w:
                        n = t['first'] + j
                        e[n - 1 + case['y'], case['pad'] + c + case['x']] = w.replace('#', str(n + dy))
        return e
    got, want = formulas(o['gsheets']), expected('remote', case['y'])
    if got != want:
        # names aren't moved with the rest
        key = 'gs-offset' if (case['x'] or case['y']) and got == expected('cells', 0) else None
        wrong = [dict(row=k[0], column=k[1], expected=want.get(k), observed=got.get(k)) for k in sorted(set(got) | set(want)) if got.get(k) != want.get(k)]
        return rep.violation('a name refers to another cell of the Google Sheet', key=key, source=s, x=case['x'], y=case['y'], wrong=wrong[:5])
    rep.extra['google sheets'] = rep.extra.get('google sheets', 0) + 1
    rep.ok(dict(source=s, x=case['x'], y=case['y']))


def has_refs(case):
    return any(c['ref'] for t in case['sheet'] for c in t['row']['cells'])


def big(case):
    return any(r['n'] > 50 for r in case['rows'])


def select(cases, rng, n, nbig):
    """everything which is small, or as many of them as there's time for"""
    cases = [c for c in cases if c['ok'] and has_refs(c)]
    small = [c for c in cases if not big(c)]
    large = [c for c in cases if big(c)]
    rng.shuffle(small)
    rng.shuffle(large)
    return small[:n] + large[:nbig]


def check(rep, tier, scratch):
    rng = random.Random(lib.seed())
    quick = tier == 'quick'
    cases = select(lib.tlc(scratch, 'Sheet', 'Sheet_small.cfg', rep.stats), rng, 20000 if quick else 10**9, 600 if quick else 6000)
    cases += select(lib.tlc(scratch, 'Sheet', 'Sheet_pairs.cfg', rep.stats), rng, 10000 if quick else 10**9, 800 if quick else 10000)
    if not quick:
        cases += select(lib.tlc(scratch, 'Sheet', 'Sheet_four.cfg', rep.stats, timeout=900), rng, 10**9, 10000)
        cases += select(lib.tlc(scratch, 'Sheet', 'Sheet_large.cfg', rep.stats, timeout=900), rng, 10**9, 10000)
    if lib.HOOKS:
        far = lib.tlc(scratch, 'Sheet', 'Sheet_remote.cfg', rep.stats)
        far = select(far, rng, 5000 if quick else 10**9, 200 if quick else 3000)
        for c in far:
            c['far'] = True
        cases += far
    for c in cases:
        c['style'] = rng.randrange(12)
    for case, obs in lib.replay(scratch, cases, steps):
        judge(rep, case, obs)
