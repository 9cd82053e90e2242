"""Any CSV is read as the rows and fields it stands for: Csv.tla"""
import csv
import io
import random
import lib

ODD = {'u': 'é'}


def txt(chars):
    return ''.join(ODD.get(c, c) for c in chars)


def steps(case):
    t = case['before'] + txt(case['text'])
    o = [{'op': 'csvp', 'text': t}]
    if case['program']:
        src = ('x := 1\n---\n' if case['code'] else '') + t
        o += [{'op': 'write', 'path': 'main.csvpp', 'text': src.replace('\n', '\r\n') if case['crlf'] else src},
              {'op': 'compile', 'main': 'main.csvpp', 'out': 'out.csv', 'write': True, 'args': {'no_cache': True}},
              {'op': 'read', 'path': 'out.csv'}]
    return o


def judge(rep, case, obs):
    t = case['before'] + txt(case['text'])
    if obs in ('crash', 'hang') or any('panic' in o for o in obs if isinstance(o, dict)):
        return rep.violation('reading crashed', text=t, observed=obs)
    # the whitespace around a value is of no significance
    want = [[txt(f).strip() for f in r] for r in case['recs']]
    if case['before']:
        want.insert(0, case['before'][:-1].split(','))
    if obs[0]['ok'] != case['ok']:
        return rep.violation('accepted' if obs[0]['ok'] else 'rejected', text=t, observed=obs[0], expected=want if case['ok'] else 'an error')
    if case['ok']:
        got = [[f['v'].strip() for f in r] for r in obs[0]['records']]
        if got != want:
            return rep.violation('the fields are wrong', text=t, expected=want, observed=got)
        for y, r in enumerate(obs[0]['records']):
            for x, f in enumerate(r):
                if (f['x'], f['y']) != (x, y):
                    return rep.violation('a field is in the wrong place', text=t, observed=f)
    if case['program']:
        o, out = obs[2:]
        if o['ok'] != case['ok']:
            return rep.violation('accepted' if o['ok'] else 'rejected', text=t, program=True, observed=o)
        if case['ok']:
            if o['rows'] != want:
                return rep.violation('the cells are wrong', text=t, expected=want, observed=o['rows'])
            # somebody else's reader gets the same out of what we've written
            width = max([len(r) for r in want] or [0])
            got = list(csv.reader(io.StringIO(out, newline='')))
            wide = [r + [''] * (width - len(r)) for r in want]
            if got != wide:
                return rep.violation('what was written is not what was read', text=t, expected=wide, observed=got, output=out)
        elif out is not None:
            return rep.violation('there is an output although it was not accepted', text=t)
    rep.ok(dict(text=t, records=want))


def check(rep, tier, scratch):
    rng = random.Random(lib.seed())
    quick = tier == 'quick'
    sets = ['small', 'spaces', 'quotes'] if quick else ['small7', 'spaces6', 'quotes9']
    cases = []
    for n in sets:
        cases += lib.tlc(scratch, 'Csv', 'Csv_%s.cfg' % n, rep.stats)
    cases += lib.tlc(scratch, 'Csv', 'Csv_long.cfg', rep.stats, simulate=25 if quick else 600, depth=61, seed=lib.seed())
    share = 0.08 if quick else 0.15
    for c in cases:
        # the cells of a program (quoted texts which contain a line with # are only cells, not comments,
        # and the line ends of a module make no difference, they become \n)
        c['program'] = rng.random() < share and '\r\n' not in txt(c['text'])
        c['crlf'] = c['program'] and '\r' not in c['text'] and rng.random() < 0.3
        c['code'] = c['program'] and rng.random() < 0.4 and c['text'][-1:] != ['\n'] and '\r' not in c['text'] and c['text'] != []
        # a long row which precedes the others makes no difference to them
        c['before'] = ''
        if c['program'] and c['text'][:1] and (c['text'][0] == '"' or txt(c['text'][0]).isalnum()) and rng.random() < .02:
            c['before'] = rng.choice([','.join(['w'] * rng.choice([256, 257, 700, 16385])), ',' * 300 + 'w', 'w,' + 'w' * 70000 + ',w']) + '\n'
    for case, obs in lib.replay(scratch, cases, steps):
        judge(rep, case, obs)
    rep.extra['after a long row'] = sum(c['before'] != '' for c in cases)
    rep.extra['programs'] = sum(c['program'] for c in cases)
