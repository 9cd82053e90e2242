"""Sheets with options, see Options.tla"""
import lib


def quoted(s):
    return '"' + s.replace('"', '""') + '"' if any(c in s for c in ',"\n') else s


def render(case, rng):
    """the source of the sheet, whose cells are t1, t2 and so on"""
    at = {}
    for place, name, text in case['trace']:
        at.setdefault(place, []).append(name + (rng.choice(['=', '=', '=', ' = ', '= ']) + text if text else ''))
    bad = case['bad']

    def brackets(place, extra=None):
        o = list(at.get(place, []))
        if extra:
            o.insert(rng.randrange(len(o) + 1), extra)
        start = '![[' if place.startswith('row') else '[['
        if bad and bad[0] == place:
            wrong = bad[1]
            if wrong == 'TWICE':
                return '[[t=b]][[t=i]]'
            if wrong == 'OPEN':
                return '[[t=b'
            if wrong == 'ROW':
                return '![[t=b]]'
            return start + (extra + ' ' if extra and wrong else '') + wrong + ']]'
        if not o:
            return ''
        sep = rng.choice([' ', ' ', '/', ' / ', '  '])
        pad = rng.choice(['', '', ' '])
        return start + pad + sep.join(o) + pad + ']]'
    lines = []
    for r in (1, 2):
        extra = rng.choice(['fill=3', 'f=3']) if r == 1 and case['fill'] > 1 else None
        first = brackets('row %d' % r, extra) + brackets('cell %d 1' % r) + 't%d' % (2 * r - 1)
        lines.append(quoted(first) + ',' + quoted(brackets('cell %d 2' % r) + 't%d' % (2 * r)))
    return '\n'.join(lines) + '\n'


def places(case):
    """[(column, row, index of the cell in the specification)]"""
    n = case['fill']
    return [(c, r, c) for r in range(n) for c in (0, 1)] + [(c, n, 2 + c) for c in (0, 1)]


def hexcolor(style):
    if not style:
        return ''
    rgb = style.get('rgbColor', {})
    return ''.join('%02X' % round(rgb.get(k, 0) * 255) for k in ('red', 'green', 'blue'))


def gsheets_cells(request):
    rows = []
    for r in request['requests']:
        u = r['updateCells']
        while len(rows) < u['start']['rowIndex']:
            rows.append([])
        rows[u['start']['rowIndex']:] = [x.get('values', []) for x in u['rows']]
    return rows


def gsheets_options(c):
    f = c.get('userEnteredFormat', {})
    t = f.get('textFormat', {})
    v = c.get('dataValidation', {}).get('condition')
    return dict(
        halign=f.get('horizontalAlignment', ''), valign=f.get('verticalAlignment', ''), wrap=f.get('wrapStrategy', ''),
        format=f.get('numberFormat', {}).get('type', ''),
        borders={s: [b.get('style'), hexcolor(b.get('colorStyle'))] for s, b in f.get('borders', {}).items()},
        color=hexcolor(f.get('backgroundColorStyle')),
        text={k: True for k in ('bold', 'italic', 'strikethrough', 'underline') if t.get(k)},
        fontcolor=hexcolor(t.get('foregroundColorStyle')), fontfamily=t.get('fontFamily', ''),
        fontsize=str(t['fontSize']) if 'fontSize' in t else '', note=c.get('note', ''),
        validation=[v['type']] + [x.get('userEnteredValue', str(x)) for x in v.get('values', [])] if v else [])


def address(c, r):
    return '%s%d' % (chr(65 + c), r + 1)


def excel_options(book, c, r):
    at = address(c, r)
    s = book['cells'].get(at, {})
    font, border = s.get('font', {}), s.get('border', {})
    notes = [n[1] for n in book['comments'] if n[0] == at]
    dv = [v for v in book['validations'] if v['at'] == at]
    colors = dict(zip(('left', 'right', 'top', 'bottom'), border.get('colors', [''] * 4)))
    return dict(
        halign=s.get('ha'), valign=s.get('va'), wrap=s.get('wrap'), format=s.get('nf'),
        borders={k: [border[k], colors[k]] for k in ('left', 'right', 'top', 'bottom') if border.get(k, 'none') != 'none'},
        color=s.get('bg', ''), fontcolor=font.get('color', ''), fontfamily=font.get('name', ''),
        fontsize=font.get('size', ''),
        text={k: True for k, on in (('bold', font.get('bold')), ('italic', font.get('italic')), ('strikethrough', font.get('strike')),
                                    ('underline', font.get('underline', 'None') != 'None')) if on},
        note=notes[0] if len(notes) == 1 else '' if not notes else notes,
        validation=[] if not dv else [dv[0]['type'], dv[0]['op'], dv[0]['f1'], dv[0]['f2']] if len(dv) == 1 else dv)


def excel_differences(want, got, at):
    """[(attribute, expected, observed, known finding)]"""
    o = []
    for k, w in want.items():
        g = got[k]
        key = None
        if k in ('fontfamily', 'fontsize'):
            # if it's not set then it is whatever Excel wants
            if w == '' or (k == 'fontsize' and g != '' and float(g) == float(w)):
                continue
        elif k in ('color', 'fontcolor'):
            if w and g == w + 'FF':
                key = 'excel-colors'
            w = 'FF' + w if w else ''
        elif k == 'borders':
            w = {s: [b[0], 'FF' + b[1] if b[1] else ''] for s, b in dict(w or {}).items()}
            if w != g and {s: [b[0], b[1][2:] + 'FF' if b[1] else ''] for s, b in w.items()} == g:
                key = 'excel-colors'
        elif k == 'text':
            w = dict(w or {})
        elif k == 'validation' and w:
            w = [x.replace('@', at) if x != '@' and '*@*' not in x else x.replace(' @', ' ' + at) for x in w]
            if w[1] == '-' and len(g) == 4:
                w[1] = g[1]
        if w != g:
            o.append((k, w, g, key))
    return o


def gsheets_differences(want, got):
    o = []
    for k, w in want.items():
        if k in ('borders', 'text'):
            w = dict(w or {})
        if w != got[k]:
            o.append((k, w, got[k], None))
    return o
