"""All targets get the same values: Values.tla"""
import csv
import io
import random
import lib
import xlsxfile
from c15 import letters

SPELLED = {'E1': 'é', 'EMOJI': '\U0001f468\u200d\U0001f469', 'DQ': '"', 'NL': '\n', 'TAB': '\t', 'NBSP': '\u00a0', 'CTRL': '\x01'}


def txt(toks):
    return ''.join(SPELLED.get(t, t) for t in toks)


def quote(t):
    return '"' + t.replace('"', '""') + '"'


def literal(e):
    # in a literal of the language a quote is doubled
    return quote(txt(e['v'][1])) if e['w'] == 'TEXT' else e['w']


def name(i, d):
    return {'var': 'v_%d', 'const': 'c_%d', 'import': 'd_%d', 'kv': 'k_%d'}[d['how']] % i


def written(e, env):
    if e['k'] == 'lit':
        return literal(e)
    if e['k'] == 'name':
        d = env[e['i'] - 1]
        return name(e['i'], d) + ('()' if d['how'] == 'const' else '')
    inner = written(e['e'], env)
    return {'paren': '(%s)', 'id': 'id(%s)', 'second': 'second(id(3), %s)'}[e['k']] % inner


def field(c, rng):
    if c['kind'] == 'nothing':
        return ''
    if c['kind'] == 'wrong':
        return quote(c['t'])
    t = txt(c['t']) if c['kind'] == 'text' else '=' + rng.choice(['', '', ' ']) + written(c['e'], c['env'])
    return quote(t) if any(x in t for x in ',"\n') or t[0] == '#' or rng.random() < .2 else t


def prepare(case, rng):
    env = case['env'] or []
    code = {'main': ['fn id(x) x', 'fn second(x, y) y'], 'dep': ['fn id(a) a', 'fn second(a, b) b']}
    kv = []
    for i, d in enumerate(env, 1):
        e = written(d['e'], env)
        if d['how'] == 'kv':
            kv.append('%s=%s' % (name(i, d), e))
        else:
            code['dep' if d['how'] == 'import' else 'main'].append(
                ('fn %s() %s' if d['how'] == 'const' else '%s := %s') % (name(i, d), e))
    csv_rows = []
    for r in case['rows']:
        opts = '![[fill=%d]]' % r['fill'] if r['fill'] > 1 else ''
        fields = [field(dict(c, env=env), rng) for c in r['cells']]
        if fields[-1] == '':
            fields[-1] = '""'       # a blank cell at the end would be dropped, see C18
        if opts:
            fields[0] = '"' + opts + fields[0][1:] if fields[0].startswith('"') else opts + fields[0]
        # (of one that has options nothing is left to be dropped)
        csv_rows.append(','.join(fields) + '\n')
    case['files'] = {'main.csvpp': 'use dep\n%s\n---\n%s' % ('\n'.join(code['main']), ''.join(csv_rows)),
                     'dep.csvpp': '\n'.join(code['dep']) + '\n---\n'}
    case['kv'] = kv


def steps(case):
    args = {'no_cache': True, 'kv': case['kv'], 'sheet': 's'}
    o = [{'op': 'write', 'path': p, 'text': t} for p, t in case['files'].items()]
    go = lambda **kw: o.append(dict({'op': 'compile', 'main': 'main.csvpp', 'args': args}, **kw))
    go(out='out.csv', write=True)
    go(out='out.xlsx', write=True)
    o.extend([{'op': 'read', 'path': 'out.csv'}, {'op': 'readhex', 'path': 'out.xlsx'}])
    if lib.HOOKS:
        go(gsheets=[])
        go(gsheets=[])
    return o


def raw(v):
    """numbers are compared as numbers"""
    return float(v[1][0]) if v[0].startswith('number') else txt(v[1])


def judge(rep, case, obs):
    given = dict(files=case['files'], key_values=case['kv'])
    if obs in ('crash', 'hang') or any(isinstance(o, dict) and 'panic' in o for o in obs):
        return rep.violation('the compiler crashed', observed=obs, **given)
    n = len(case['files'])
    to_csv, to_xlsx, csv_out, xlsx_out = obs[n:n + 4]
    runs = [to_csv, to_xlsx] + obs[n + 4:]
    if any(o['ok'] != case['ok'] for o in runs):
        return rep.violation('it compiles for some of the targets' if len({o['ok'] for o in runs}) > 1 else
                             'it does not compile' if case['ok'] else 'a mistake was not noticed',
                             observed=[o['ok'] or o['err'] for o in runs], **given)
    if not case['ok']:
        if csv_out is not None or xlsx_out is not None:
            return rep.violation('there is an output although it was not compiled', **given)
        if len({o['err'] for o in runs}) > 1:
            return rep.violation('the message depends on the target', observed=[o['err'] for o in runs], **given)
        return rep.ok()
    want = case['want']
    rows = list(csv.reader(io.StringIO(csv_out, newline='')))
    width = max(len(r) for r in want)
    expected = [[txt(c['csv']) for c in r] + [''] * (width - len(r)) for r in want]
    if rows != expected:
        return rep.violation('the CSV file has other values', expected=expected, observed=rows, **given)
    expected = {letters(x) + str(y + 1): (c['xlsx'][0], raw(c['xlsx'])) for y, r in enumerate(want) for x, c in enumerate(r)
                if c['xlsx'][0] != 'nothing'}
    try:
        cells = xlsxfile.sheets(bytes.fromhex(xlsx_out))['s']
    except Exception as e:
        return rep.violation('the Excel file can not be read', error=str(e), **given)
    got = {a: (t, float(v) if t == 'number' else v) for a, (t, v) in cells.items()}
    if got != expected:
        return rep.violation('the Excel file has other values', expected=expected, observed=got, **given)
    if lib.HOOKS:
        first, second = obs[n + 4:]
        if first != second:
            return rep.violation('the request differs from one time to the other', first=first, second=second, **given)
        u = [r['updateCells'] for r in first['gsheets']['requests']]
        got = [[(c.get('userEnteredValue') or {}) for c in r.get('values', [])] for r in u[0]['rows']]
        got = [[{k: str(x).upper() if isinstance(x, bool) else x for k, x in c.items()} for c in r] for r in got]
        expected = [[{} if c['gs'][0] == 'none' else {c['gs'][0]: raw(c['gs'])} for c in r] for r in want]
        if len(u) != 1 or got != expected:
            return rep.violation('the request to Google Sheets has other values', expected=expected, observed=got, **given)
    for r in want:
        for c in r:
            rep.extra[c['xlsx'][0]] = rep.extra.get(c['xlsx'][0], 0) + 1
    rep.ok(dict(files=case['files']))


def check(rep, tier, scratch):
    rng = random.Random(lib.seed())
    quick = tier == 'quick'
    cases = lib.tlc(scratch, 'Values', 'Values_texts.cfg', rep.stats)
    cases += lib.tlc(scratch, 'Values', 'Values_wraps.cfg', rep.stats)
    three = lib.tlc(scratch, 'Values', 'Values_wraps3.cfg', rep.stats)
    rng.shuffle(three)
    cases += three[:2500 if quick else None]
    cases += lib.tlc(scratch, 'Values', 'Values_sheets.cfg', rep.stats, simulate=250 if quick else 6000, depth=200, seed=lib.seed(), timeout=3000)
    cases += lib.tlc(scratch, 'Values', 'Values_bad.cfg', rep.stats, simulate=100 if quick else 2000, depth=200, seed=lib.seed(), timeout=3000)
    for c in cases:
        prepare(c, rng)
    for case, obs in lib.replay(scratch, cases, steps):
        judge(rep, case, obs)
