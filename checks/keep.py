"""Formats, notes and data validations of existing Excel files: Keep.tla"""
import re


def source(w, k):
    cells = {tuple(x['at']): x['m'] for x in w['cells']}

    def cell(p):
        m = cells.get(p)
        if m is None:
            return 'x'
        options = (['t=italic'] if m['italic'] else []) + ["n='note%d %s'" % (k, name(p))] * m['note'] + ["dv=custom('=NEW%d')" % k] * m['rule']
        return ('[[%s]]' % ' '.join(options) if options else '') + ('new%d %s' % (k, name(p)) if m['v'] else '' if options else '""')
    return ''.join(','.join(cell((r + 1, c + 1)) for c in range(w['size'][1])) + '\n' for r in range(w['size'][0]))


def name(p):
    return 'ABC'[p[1] - 1] + str(p[0])


def place(a1):
    m = re.fullmatch(r'\$?([A-Z])\$?(\d+)', a1)
    return int(m[2]), 'ABCDEFGH'.index(m[1]) + 1


def covers(ref, at):
    """is a cell one of those of a list of ranges?"""
    r, c = place(at)
    for part in ref.split():
        a, b = [place(x) for x in (part + ':' + part).split(':')[:2]]
        if a[0] <= r <= b[0] and a[1] <= c <= b[1]:
            return True
    return False


def steps(case):
    s = {'rule ' + case['range']: 'RANGE'} if case['range'] else {}
    for x in case['old']:
        at, c = x['at'], x['c']
        s[at] = dict({'v': 'old ' + at if c['v'] else None, 'bold': True}, **({'note': 'note ' + at} if c['note'] else {}))
        if c['rule']:
            s['rule ' + at] = 'OLD' + at
    other = {'A1': {'v': 'untouched', 'bold': True, 'note': 'other note'}, 'rule A1': 'OTHER'}
    o = [{'op': 'mkxlsx', 'path': 'out.xlsx', 'sheets': {'s': s, 'other': other}}]
    for k, w in enumerate(case['writes']):
        o.append({'op': 'write', 'path': 'main.csvpp', 'text': source(w, k + 1)})
        o.append({'op': 'compile', 'main': 'main.csvpp', 'norows': True, 'out': 'out.xlsx', 'write': True, 'args': {'no_cache': True, 'safe': w['safe'], 'sheet': 's'}})
        o.append({'op': 'xlsx', 'path': 'out.xlsx', 'sheet': 's'})
    o.append({'op': 'xlsx', 'path': 'out.xlsx', 'sheet': 'other'})
    return o


def rules(got, at):
    return [v['f1'].lstrip('=') for v in got['validations'] if covers(v['at'], at)]


def judge(rep, case, obs):
    info = dict(target='xlsx', existing=case['old'], validated_range=case['range'],
                writes=[dict(source=source(w, k + 1), safe=w['safe']) for k, w in enumerate(case['writes'])])
    if obs in ('crash', 'hang'):
        return rep.violation('the compiler %s' % obs, **info)
    for k, w in enumerate(case['writes']):
        o, got = obs[3 * k + 2], obs[3 * k + 3]
        if 'panic' in o or not o['ok'] or 'cells' not in got:
            return rep.violation('writing failed', observed=[o, got], **info)
        for x in w['after']:
            at = x['at']
            cell = got['cells'].get(at, {})
            d = []
            if cell.get('v', '') != x['value']:
                d.append(('value', x['value'], cell.get('v', '')))
            font = cell.get('font', {})
            f = 'bold' if font.get('bold') else 'italic' if font.get('italic') else ''
            if f != x['format'] and not (x['format'] == 'bold' and not cell):
                d.append(('format', x['format'], f))
            notes = [n for a, n in got['comments'] if a == at]
            if notes not in [[n] if n else [] for n in x['notes']]:
                d.append(('note', x['notes'], notes))
            if sorted(rules(got, at)) not in [sorted(r) for r in x['rules']]:
                d.append(('validation', x['rules'], rules(got, at)))
            if d:
                return rep.violation('what there was about an existing cell is lost, or what the module has is missing', cell=at, write=k + 1,
                                     differences=[dict(what=a, allowed=b, observed=c) for a, b, c in d], **info)
    other = obs[-1]
    if other['cells']['A1']['v'] != 'untouched' or [n for _, n in other['comments']] != ['other note'] or rules(other, 'A1') != ['OTHER']:
        return rep.violation('another tab was changed', observed=other, **info)
    rep.ok(info)
