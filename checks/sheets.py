"""Programs made of the templates of Sheet.tla"""
NONE, INF = 5000, 6000


def source(case, fn, text, style=0):
    """text(k, c) is what an empty cell of a template contains"""
    o = ['fn f(x) (x + v)', '---'] if fn else []
    for k, t in enumerate(case['sheet']):
        ropts = []
        if t['fill'] == INF:
            ropts.append('fill' if style % 2 else 'f')
        elif t['fill'] != NONE:
            ropts.append(('fill=%d' if style % 2 else 'f=%d') % t['fill'])
        if t['row']['rowvar']:
            ropts.append(('var=%s' if style % 2 else 'v=%s') % t['row']['rowvar'])
        if style % 3 == 1:
            ropts.reverse()
        cells = []
        for c, cell in enumerate(t['row']['cells']):
            ref = cell['ref']
            if ref.startswith('f '):
                s = '=f(%s)' % ref[2:]
            elif ref:
                s = '=' + ref
            else:
                s = text(k, c)
            if cell['var']:
                s = '[[%s=%s]]%s' % ('var' if style % 2 else 'v', cell['var'], s)
            cells.append(s)
        cells = [''] * case['pad'] + cells
        if not cells:
            cells = ['']
        if ropts:
            # options of the row are in its first cell
            cells[0] = '![[' + (' / ' if style % 4 == 3 else ' ').join(ropts) + ']]' + cells[0]
        elif cells == ['']:
            cells = ['', '']                  # empty lines at either end aren't rows
        o.append(','.join(cells))
    return '\n'.join(o) + '\n'


def expected(case, text):
    """[(row number, template, cells)] for every row"""
    rows = []
    for k, t in enumerate(case['rows']):
        for j in range(t['n']):
            n = t['first'] + j
            want = [''] * case['pad']
            for c, w in enumerate(t['cells']):
                want.append(w.replace('#', str(n)) if w else text(k, c))
            rows.append((n, k, want))
    return rows


def trim(cells):
    cells = list(cells)
    while cells and cells[-1] == '':
        cells.pop()
    return cells
