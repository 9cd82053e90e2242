"""Errors name the place of the mistake: Mistakes.tla"""
import random
import re
import lib

NAMES = {'main': 'main.csvpp', 'dep': 'dep.csvpp'}


def letters(col):
    s = ''
    col += 1
    while col:
        col, d = divmod(col - 1, 26)
        s = chr(65 + d) + s
    return s


def files(case):
    text = case['text'].replace('~', '\n').replace('@', '"').replace('`', 'é')
    if case['crlf']:
        text = text.replace('\n', '\r\n')
    out = {NAMES[case['file']]: text}
    if case['file'] == 'dep':
        out['main.csvpp'] = 'use dep\n---\nx\n'
    return out


def steps(case):
    o = [{'op': 'write', 'path': p, 'text': t} for p, t in files(case).items()]
    return o + [{'op': 'compile', 'main': 'main.csvpp', 'args': {'no_cache': not case['cache']}}]


def excerpt(err):
    """the line which is pointed at, its number and the place: ' 3: x,=)' and '  : ---^'"""
    lines = err.rstrip('\n').split('\n')
    for i in range(len(lines) - 1, 0, -1):
        m = re.fullmatch(r' +: (-*)\^', lines[i])
        if m:
            above = re.fullmatch(r' (\d+) *: (.*)', lines[i - 1])
            if above and above.start(2) != m.start(1):
                return 'the ^ is not below its place in the line', len(m[1]), []
            around = [re.fullmatch(r' (\d+) *: (.*)', l) for l in lines[i - 4 if i > 3 else 0:i] + lines[i + 1:]]
            return above and (int(above[1]), above[2]), len(m[1]), [(int(a[1]), a[2]) for a in around if a]
    return None, None, []


def judge(rep, case, obs):
    given = files(case)
    if obs in ('crash', 'hang') or 'panic' in obs[-1]:
        return rep.violation('the compiler crashed', files=given, observed=obs)
    o, m = obs[-1], case['mistake']
    if o['ok']:
        return rep.violation('a mistake was not noticed', files=given, mistake=m)
    err, name = o['err'], NAMES[case['file']]
    address = letters(m['cell'][0]) + str(m['cell'][1] + 1)
    first = {'code': 'Syntax error in code section of "%s"' % name,
             'cell': 'Syntax error in cell %s of "%s"' % (address, name),
             'csv': 'Syntax error in CSV section of "%s"' % name,
             'eval': 'Error evaluating formula in cell %s (%d, %d) of "%s"' % (address, m['cell'][0], m['cell'][1], name)}[m['kind']]
    if case['file'] == 'dep':
        first = 'Error loading module dep\n' + first
    wrong = lambda what, **kw: rep.violation(what, files=given, mistake=m, message=err, **kw)
    if not err.startswith(first + '\n'):
        return wrong('an error does not name the file, the section or the cell of the mistake', expected=first)
    if m['kind'] != 'eval':
        rest = err[len(first) + 1:]
        if not rest.startswith('On line %d ' % (m['line'] + 1)):
            return wrong('an error does not name the line of the mistake', expected=m['line'] + 1)
        lines = given[name].replace('\r\n', '\n').split('\n')
        at, col, around = excerpt(err)
        if at != (m['line'] + 1, lines[m['line']]):
            # a line which is after the last one can't be shown
            if m['line'] < len(lines) - 1 or lines[-1]:
                return wrong('an error does not show the line of the mistake', expected=(m['line'] + 1, lines[m['line']]), observed=at)
        elif not m['from'] <= col <= m['to']:
            return wrong('an error does not point to the mistake in its line', expected=(m['from'], m['to']), observed=col)
        if any(lines[n - 1] != t for n, t in around):
            return wrong('the lines around the mistake are not those of the file', observed=around)
    rep.extra[m['kind']] = rep.extra.get(m['kind'], 0) + 1
    rep.ok(dict(files=given, error=err))


def check(rep, tier, scratch):
    rng = random.Random(lib.seed())
    quick = tier == 'quick'
    cases = []

    def tlc(name, n=None, **kw):
        found = lib.tlc(scratch, 'Mistakes', 'Mistakes_%s.cfg' % name, rep.stats, **kw)
        rng.shuffle(found)
        cases.extend(found[:n])
    tlc('code')
    tlc('cells', 8000 if quick else None, timeout=3000)
    tlc('dep', 2000 if quick else None, timeout=3000)
    tlc('calls', 4000 if quick else None, timeout=3000)
    if not quick:
        tlc('code3', timeout=3000)
    tlc('long', simulate=500 if quick else 40000, depth=60, seed=lib.seed(), timeout=3000)
    for c in cases:
        c['crlf'] = rng.random() < .15
        c['cache'] = rng.random() < .2
    for case, obs in lib.replay(scratch, cases, steps):
        judge(rep, case, obs)
