"""Writing modules over existing spreadsheets: Target.tla"""
import csv
import io
import random
import keep
import lib


def value(v):
    return v.replace("'", '"')


def quoted(v):
    return '"' + v.replace('"', '""') + '"' if v == '' or any(c in v for c in ',"\n') else v


def address(c, r):
    return 'ABCDEFGHIJ'[c] + str(r + 1)


def csv_text(rows, blank_lines):
    """an existing CSV file, in which an empty row can also be an empty line"""
    return ''.join('\n' if blank_lines and r == [''] else ','.join(map(quoted, r)) + '\n' for r in rows)


def source(w):
    return ''.join(','.join('"%s"' % value(v) if v.startswith('#') else quoted(value(v)) for v in r) + '\n' for r in w['m'])


def number(v):
    return v.isdigit()


def old_xlsx(case):
    o = {}
    for r, row in enumerate(case['old']):
        for c, cell in enumerate(row):
            v = value(cell['v'])
            if cell['k'] == 's':
                o[address(c, r)] = {'v': None, 'bold': True}
            elif v:
                o[address(c, r)] = {'v': int(v) if number(v) else v, 'bold': True}
    return {'s': o, 'other': {'B2': 'untouched'}}


def cell_data(v):
    kind = 'formulaValue' if v.startswith('=') else 'numberValue' if number(v) else 'stringValue'
    return {'userEnteredValue': {kind: int(v) if number(v) else v}, 'note': 'kept', 'userEnteredFormat': {'textFormat': {'bold': True}}}


def variants(case):
    """are the empty rows of the existing file empty lines?"""
    return [False, True] if case['kind'] == 'csv' and case['blanks'] else [False]


def steps(case):
    o = []
    for blank in variants(case):
        if case['old']:
            if case['kind'] == 'csv':
                o.append({'op': 'write', 'path': 'out.csv', 'text': csv_text([[value(c['v']) for c in r] for r in case['old']], blank)})
            elif case['kind'] == 'xlsx':
                o.append({'op': 'mkxlsx', 'path': 'out.xlsx', 'sheets': old_xlsx(case)})
        for w in case['writes']:
            o.append({'op': 'write', 'path': 'main.csvpp', 'text': source(w)})
            step = {'op': 'compile', 'main': 'main.csvpp', 'norows': True,
                    'args': {'no_cache': True, 'safe': w['safe'], 'sheet': 's'}}
            if case['kind'] == 'gs':
                step['gsheets'] = [[(cell_data(value(v[0])) if v != [''] else None) for v in r] for r in w['before']]
                step['args'].update(x=w['x'], y=w['y'])
                o.append(step)
                o.append({'op': 'ls'})
            else:
                out = 'out.' + case['kind']
                o.append(dict(step, out=out, write=True))
                o.append({'op': 'read', 'path': out} if case['kind'] == 'csv' else {'op': 'xlsx', 'path': out, 'sheet': 's'})
        o.append({'op': 'rm', 'path': 'out.csv'})
    return o


def after_request(before, request):
    """what a Google Sheet contains after updating its cells (all of their fields)"""
    rows = [list(r) for r in before]
    for rq in request.get('requests', []):
        u = rq['updateCells']
        fields = (u.get('fields') or '').split(',')
        y0, x0 = u['start']['rowIndex'], u['start']['columnIndex']
        for y, row in enumerate(u['rows']):
            for x, cell in enumerate(row.get('values', [])):
                while len(rows) <= y0 + y:
                    rows.append([])
                while len(rows[y0 + y]) <= x0 + x:
                    rows[y0 + y].append(None)
                if '*' in fields:
                    rows[y0 + y][x0 + x] = cell
                else:
                    kept = {k: v for k, v in (rows[y0 + y][x0 + x] or {}).items() if k not in fields}
                    rows[y0 + y][x0 + x] = dict(kept, **{k: v for k, v in cell.items() if k in fields})
    return rows


def gs_value(cell):
    v = (cell or {}).get('userEnteredValue') or {}
    for k, x in v.items():
        return str(int(x)) if k == 'numberValue' else x
    return ''


def at(rows, r, c):
    return rows[r][c] if r < len(rows) and c < len(rows[r]) else None


def differences(case, w, got, allowed, rep):
    """compares what's there after a write to what the specification allows"""
    rows = None
    if case['kind'] == 'csv':
        rows = list(csv.reader(io.StringIO(got, newline='')))
        if len({len(r) for r in rows}) > 1:
            return ['the rows have different lengths']
        read = lambda r, c: at(rows, r, c) or ''
    elif case['kind'] == 'xlsx':
        if 'cells' not in got:
            return ['the sheet is missing or unreadable']
        if case['old'] and set(got['sheets']) != {'s', 'other'}:
            return ['the sheets are %s' % got['sheets']]

        def read(r, c):
            x = got['cells'].get(address(c, r))
            if x is None:
                return ''
            if x['f']:
                # what's shown for a formula until it's calculated mustn't be left over from something else
                return '=' + x['f'] + (' showing ' + x['v'] if x['v'] else '')
            return x['v']
    else:
        before = [[(cell_data(value(v[0])) if v != [''] else None) for v in r] for r in w['before']]
        rows = after_request(before, got)
        read = lambda r, c: gs_value(at(rows, r, c))
    d = []
    height = max(len(allowed), len(rows or []))
    width = max([len(allowed[0])] + [len(r) for r in rows or []])
    for r in range(height):
        for c in range(width):
            ok = [value(v) for v in at(allowed, r, c)] if at(allowed, r, c) else ['']
            v = read(r, c)
            if v not in ok:
                d.append('%s is %r and not %s' % (address(c, r), v, ' or '.join(map(repr, ok))))
            elif case['kind'] == 'gs' and at(allowed, r, c) and at(w['before'], r, c) == at(allowed, r, c) and v:
                # the rest of the cells which are kept is kept as well
                if rows[r][c] != before[r][c]:
                    d.append('%s was changed to %s' % (address(c, r), rows[r][c]))
            elif case['kind'] == 'xlsx' and v and at(w['before'], r, c) == at(allowed, r, c) and v in first_values(case):
                if not got['cells'][address(c, r)].get('font', {}).get('bold'):
                    d.append('the format of %s was changed' % address(c, r))
    return d


def first_values(case):
    return {value(c['v']) for r in case['old'] for c in r}


def judge(rep, case, obs):
    info = dict(target=case['kind'], existing=[[value(c['v']) if c['k'] != 's' else '(formatted)' for c in r] for r in case['old']],
                writes=[dict(source=source(w), safe=w['safe'], offset=[w['x'], w['y']]) for w in case['writes']])
    if obs in ('crash', 'hang'):
        return rep.violation('the compiler %s' % obs, **info)
    i = 0
    for blank in variants(case):
        if case['old'] and case['kind'] != 'gs':
            i += 1
        for n, w in enumerate(case['writes']):
            o, got = obs[i + 1], obs[i + 2]
            i += 3
            if 'panic' in o or not o['ok']:
                return rep.violation('writing failed', observed=o, **info)
            got = o['gsheets'] if case['kind'] == 'gs' else got
            d = differences(case, w, got, w['after'], rep)
            if d:
                key = None
                if blank and not differences(case, w, got, w['skipped'], rep):
                    key = 'csv-empty-lines'
                return rep.violation('the contents are wrong after writing a module', key=key, differences=d, write=n + 1,
                                     empty_lines=blank, **info)
        i += 1
    rep.ok(info)


def sample(cases, quick, n):
    return random.Random(lib.seed()).sample(cases, n) if quick and n < len(cases) else cases


def check(rep, tier, scratch):
    quick = tier == 'quick'
    cases = []
    for kind in ('csv', 'xlsx', 'gs'):
        if kind == 'gs' and not lib.HOOKS:
            continue
        cases += lib.tlc(scratch, 'Target', 'Target_%s%s.cfg' % (kind, '' if quick else '3'), rep.stats, timeout=5000)
        n = {'csv': 200, 'xlsx': 60, 'gs': 100}[kind] * (1 if quick else 20)
        cases += lib.tlc(scratch, 'Target', 'Target_%sr.cfg' % kind, rep.stats, simulate=n, depth=20, seed=lib.seed())
    cases += sample(lib.tlc(scratch, 'Keep', 'Keep_one.cfg', rep.stats), quick, 400)
    cases += sample(lib.tlc(scratch, 'Keep', 'Keep_two.cfg', rep.stats), quick, 1000)
    cases += lib.tlc(scratch, 'Keep', 'Keep_many.cfg', rep.stats, simulate=120 if quick else 2000, depth=6, seed=lib.seed())
    for case, obs in lib.replay(scratch, cases, lambda c: (keep.steps if c['kind'] == 'keep' else steps)(c)):
        (keep.judge if case['kind'] == 'keep' else judge)(rep, case, obs)
    rep.extra['writes'] = {k: sum(len(c['writes']) for c in cases if c['kind'] == k) for k in ('csv', 'xlsx', 'gs', 'keep')}
