"""Fills make exactly the rows that were asked for, in place: Sheet.tla"""
import csv
import io
import random
import lib
import sheets


def text(k, c):
    return 't%dc%d' % (k, c)


def src(case):
    return sheets.source(case, False, text, case['style'])


def steps(case):
    return [{'op': 'write', 'path': 'main.csvpp', 'text': src(case)},
            {'op': 'compile', 'main': 'main.csvpp', 'out': 'out.csv', 'write': True, 'args': {'no_cache': True}},
            {'op': 'read', 'path': 'out.csv'}]


def judge(rep, case, obs):
    s = src(case)
    if obs in ('crash', 'hang') or 'panic' in obs[1]:
        return rep.violation('the compiler crashed', source=s, observed=obs)
    o, out = obs[1:]
    if not case['ok']:
        if o['ok'] or out is not None:
            return rep.violation('several infinite fills were accepted', source=s)
        return rep.ok()
    if not o['ok']:
        return rep.violation('a program was not compiled', source=s, observed=o)
    want = [sheets.trim(w) for _, _, w in sheets.expected(case, text)]
    for where, rows in (('compiled', o['rows']), ('output', list(csv.reader(io.StringIO(out))))):
        got = [sheets.trim(r) for r in rows]
        if got != want:
            at = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
            return rep.violation('wrong rows in the %s spreadsheet' % where, source=s, expected_rows=len(want), observed_rows=len(got),
                                 row=at + 1, expected=want[at:at + 3], observed=got[at:at + 3])
    if case['pad'] and len(want) > 0 and not out:
        return rep.violation('nothing was written', source=s)
    rep.ok(dict(source=s, rows=len(want)))


def weight(case):
    return sum(r['n'] for r in case['rows'])


def check(rep, tier, scratch):
    rng = random.Random(lib.seed())
    quick = tier == 'quick'
    counts = lib.tlc(scratch, 'Sheet', 'Sheet_counts.cfg', rep.stats)
    cases = lib.tlc(scratch, 'Sheet', 'Sheet_plain.cfg', rep.stats)
    if not quick:
        cases += lib.tlc(scratch, 'Sheet', 'Sheet_plain5.cfg', rep.stats)
    rng.shuffle(counts)
    rng.shuffle(cases)
    small = [c for c in cases + counts if weight(c) <= 50]
    large = [c for c in counts if weight(c) > 50]
    larger = [c for c in cases if weight(c) > 50]
    cases = small[:15000] + large[:1500] + larger[:1000] if quick else small + large + larger[:8000]
    for c in cases:
        c['style'] = rng.randrange(12)
    for case, obs in lib.replay(scratch, cases, steps):
        judge(rep, case, obs)
    rep.extra['largest'] = max(weight(c) for c in cases)
