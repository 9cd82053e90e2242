"""What is given to csv++ is compiled or rejected, whatever it is: Robust.tla"""
import random
import re
import lib

SPELLED = {'DQ': b'"', 'NL': b'\n', 'CR': b'\r', 'BS': b'\\', 'TAB': b'\t', 'NUL': b'\0', 'BOM': '\ufeff'.encode(), 'XFF': b'\xff',
           'EMOJI': '\U0001f468\u200d\U0001f469'.encode(), 'BIG': b'99999999999999999999', 'DEP': b'dep'}


def spell(toks, **other):
    return b''.join(other.get(t, SPELLED.get(t, t.encode())) for t in toks)


def stretched(case):
    """the tokens, one of which can be very long"""
    toks = list(case['toks'])
    if case.get('long'):
        i, n, k, t = case['long']
        if t:
            toks.insert(i - 1, 'LONG')
        else:
            t, toks[i - 1] = toks[i - 1], 'LONG'
        SPELLED['LONG'] = b'x' * k + SPELLED.get(t, t.encode()) * n
    return toks


def file(path, data):
    return {'op': 'writehex', 'path': path, 'hex': data.hex()}


def module(csv, rng):
    """something in a cell, which isn't always the first one"""
    return rng.choice([b'%s', 'é,"é""\n",%s,z'.encode(), b'a := 1\n---\n# c\n\xc3\xa9,\\\n%s\nx', b'x\n%s'])  % csv


def deep(shape, n):
    return {'paren': '(' * n + '1' + ')' * n, 'call': 'f(' * n + '1' + ')' * n, 'sum': '1' + '+1' * n,
            'right': '1' + '+(1' * n + ')' * n, 'sign': '-' * n + '1'}[shape]


def prepare(case, rng):
    """the files and the arguments of csv++"""
    s, toks = case['surface'], stretched(case)
    args, files, existing = {'no_cache': True}, [], None
    if s == 'deep':
        shape, depth, where = toks[0], case['depth'], toks[1]
        e = deep(shape, depth)
        main = {'cell': '"=%s"\n' % e, 'code': 'a := %s\n---\n=a' % e, 'dep': 'use dep\n---\n=a'}[where].encode()
        if where == 'dep':
            files.append(('dep.csvpp', ('a := %s\n---\n' % e).encode()))
    elif s == 'formula':
        t = spell(toks)
        main = module(rng.choice([b'"=%s"' % t.replace(b'"', b'""'), b'=' + t]), rng)
    elif s == 'cell':
        main = rng.choice([b'%s', b'a := 1\n---\n%s', b'x,y\n%s']) % spell(toks)
    elif s == 'code':
        t = spell(toks)
        if rng.random() < 0.3:
            main = b'use dep\n---\n=a,"=f(1,2)"'
            files.append(('dep.csvpp', t + b'\n---\n'))
        else:
            main = t + b'\n---\n=a,"=f(1,2)",\xc3\xa9'
            files.append(('dep.csvpp', b'b := 2\n---\n'))
    elif s == 'options':
        main = module(spell(toks), rng)
    elif s == 'value':
        main = module((b'![[' if toks[:1] == ['fill'] or rng.random() < .2 else b'[[') + spell(toks) + b']]x', rng)
    elif s == 'validation':
        main = module(b'[[' + rng.choice([b'validate', b'dv']) + b'=' + spell(toks) + b']]x', rng)
    elif s == 'keyvalue':
        main = b'=a,=b,"=f(1)"'
        args['kv'] = [spell(toks).decode()]
    elif s == 'existing':
        main = b'x,,=A1\n,y'
        existing = spell(toks)
    return main, files, args, existing


def steps(case):
    main, files, args, existing = case['given']
    o = [file('main.csvpp', main)] + [file(*f) for f in files]
    if existing is not None:
        o += [file('out.csv', existing), file('out.xlsx', existing)]
        o += [{'op': 'compile', 'main': 'main.csvpp', 'out': out, 'write': True, 'args': dict(args, safe=safe)}
              for out in ('out.csv', 'out.xlsx') for safe in (True, False)]
        return o
    for t in case['targets']:
        o.append({'op': 'compile', 'main': 'main.csvpp', 'args': args, **{
            'csv': {'out': 'out.csv', 'write': True}, 'xlsx': {'out': 'out.xlsx', 'write': True}, 'gs': {'gsheets': []}}[t]})
    return o


def judge(rep, case, obs):
    main, files, args, existing = case['given']
    given = dict(surface=case['surface'], main=main[:300].decode('utf8', 'backslashreplace'),
                 files=[(n, d[:300].decode('utf8', 'backslashreplace')) for n, d in files], args=args,
                 existing=existing and existing.decode('utf8', 'backslashreplace'))
    if case['surface'] == 'deep':
        given['nested'] = case['depth']
    key = 'deep-nesting' if case['surface'] == 'deep' and case['depth'] >= 4000 else None
    if obs == 'crash':
        return rep.violation('csv++ crashed', key=key, **given)
    if obs == 'hang':
        return rep.violation('csv++ did not end', key=key, **given)
    for o in obs:
        if isinstance(o, dict) and 'panic' in o:
            return rep.violation('csv++ panicked', observed=o, **given)
        if isinstance(o, dict) and 'ok' in o and not o['ok'] and not o['err'].strip():
            return rep.violation('it was rejected without a message', observed=o, **given)
    last = obs[-1]
    rep.extra['compiled' if last.get('ok') else 'rejected'] = rep.extra.get('compiled' if last.get('ok') else 'rejected', 0) + 1
    rep.ok(given)


def cli_steps(case):
    return [file('main.csvpp', b'=a,x,"[[b=all]]y"'), file('plain', b'x,y'), {'op': 'mkdir', 'path': 'dir'},
            {'op': 'mkdir', 'path': 'dir.csvpp'},
            {'op': 'cli', 'args': [t.replace('XFF', '\uf8ff') for t in case['args']]}]


def cli_judge(rep, case, obs):
    if obs in ('crash', 'hang'):
        return rep.violation('csv++ did not end', arguments=case['args'], observed=obs)
    o = obs[-1]
    if o['rc'] not in (0, 1, 2) or 'panicked' in o['stderr']:
        return rep.violation('csv++ crashed', arguments=case['args'], observed=o)
    if o['rc'] != 0 and not (o['stderr'] + o['stdout']).strip():
        return rep.violation('it was rejected without a message', arguments=case['args'], observed=o)
    k = 'runs_compiled' if o['rc'] == 0 else 'runs_rejected'
    rep.extra[k] = rep.extra.get(k, 0) + 1
    rep.ok(dict(arguments=case['args']))


def check(rep, tier, scratch):
    rng = random.Random(lib.seed())
    quick = tier == 'quick'
    cases = []

    def tlc(name, n=None, **kw):
        found = lib.tlc(scratch, 'Robust', 'Robust_%s.cfg' % name, rep.stats, **kw)
        rng.shuffle(found)
        cases.extend(found[:n])
    tlc('ends')
    tlc('two')
    tlc('edit', 12000 if quick else None)
    tlc('three', 9000 if quick else None, timeout=3000)
    if not quick:
        tlc('four', timeout=3000)
    tlc('cli')
    tlc('clis', simulate=500 if quick else 6000, depth=10, seed=lib.seed())
    tlc('long', simulate=9000 if quick else 160000, depth=10, seed=lib.seed())
    tlc('edits', simulate=8000 if quick else 160000, depth=10, seed=lib.seed())
    # what it takes to repeat a row is proportional to how often it is
    cases = [c for c in cases if not re.search(rb'(fill|expand|f|e)\s*=\s*\d{6}', spell(stretched(c)))]
    todo, cli = [], []
    for c in cases:
        if c['surface'] == 'arguments':
            # Google Sheets are C16's, csv++ would look for credentials and a network here
            if '-g' not in c['toks']:
                cli.append(dict(args=c['toks']))
            continue
        c['targets'] = ['csv']
        if c['surface'] in ('options', 'value', 'validation') or rng.random() < .05:
            c['targets'] = ['csv', 'xlsx'] + (['gs'] if lib.HOOKS else [])
        todo.append(c)
    for shape in ('paren', 'call', 'sum', 'right', 'sign'):
        for where in ('cell', 'code', 'dep'):
            for depth in (10, 100, 300):
                todo.append(dict(surface='deep', toks=[shape, where], depth=depth, targets=['csv']))
    todo.append(dict(surface='deep', toks=['right', 'dep'], depth=4000, targets=['csv']))
    for c in todo:
        c['given'] = prepare(c, rng)
    for case, obs in lib.replay(scratch, todo, steps):
        judge(rep, case, obs)
    for case, obs in lib.replay(scratch, cli, cli_steps):
        cli_judge(rep, case, obs)
    rep.extra['surfaces'] = {s: sum(c['surface'] == s for c in todo) for s in sorted({c['surface'] for c in todo})}
    rep.extra['command_lines'] = len(cli)
