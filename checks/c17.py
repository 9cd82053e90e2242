"""The same input always gives the same output and message: Eval.tla"""
import random
import lib

SLOW = 11


def address(r, c):
    return '%s%d' % (chr(64 + c), r)


def files(case):
    o = {}
    rng = random.Random(str(case['uses']) + str(case['wrong']))
    n = len(case['kind'])
    code = ['use m%d' % u for u in sorted(case['uses'][0])]
    code += ['fn d(x) x + x', 'fn one(x) 1']
    rows = []
    for r, row in enumerate(case['cells'], 1):
        line = []
        for c, kind in enumerate(row, 1):
            if kind == 'bad':
                code.append('fn w_%d_%d(x) x' % (r, c))
                line.append('"=w_%d_%d(1, 2)"' % (r, c))
            elif kind == 'slow':
                line.append('[[t=b t=u b=l b=t t=i]]=one(%s1%s)' % ('d(' * SLOW, ')' * SLOW))
            else:
                line.append('![[t=i t=s t=u t=b b=t b=r b=l]]=%d + %d' % (r, c) if c == 1 else '=%d + %d' % (r, c))
        rows.append(','.join(line))
    o['main.csvpp'] = '\n'.join(code + ['---'] + rows) + '\n'
    for m in range(1, n + 1):
        kind, wrong = case['kind'][m - 1], case['wrong'][m - 1]
        if kind == 'missing':
            continue
        text = ['use m%d' % u for u in sorted(case['uses'][m])]
        defs = []
        for d in ('va', 'vb', 'fa', 'fb'):
            value = '1'
            if d in wrong:
                defs.append('fn w_m%d_%s(x) x' % (m, d))
                value = 'w_m%d_%s(1, 2)' % (m, d)
            defs.append(('%s_m%d := %s' if d[0] == 'v' else 'fn %s_m%d() %s') % (d, m, value))
        rng.shuffle(defs)
        o['m%d.csvpp' % m] = '\n'.join(text + defs + (['oops := := 1'] if kind == 'broken' else []) + ['---']) + '\n'
    return o


def steps(case):
    o = [{'op': 'write', 'path': p, 'text': t} for p, t in files(case).items()]
    o.append({'op': 'stamp', 't': 1700000000})
    run = {'op': 'compile', 'main': 'main.csvpp', 'args': {'no_cache': True, 'sheet': 's'}, 'write': True}
    kw = {'gsheets': []} if lib.HOOKS else {}
    o += [dict(run, out='a.csv', **kw), dict(run, out='a.xlsx'), dict(run, out='b.csv', **kw), dict(run, out='b.xlsx'), {'op': 'files'}]
    if case.get('cli'):
        for i, threads in enumerate((1, 2, 8, 8)):
            # every process has its own order of hash maps
            o.append({'op': 'cli', 'args': ['main.csvpp', '-o', 'c%d.%s' % (i, 'xlsx' if i == 3 else 'csv')] + ['-n', 's'] + (['--no-cache'] if i in (0, 3) else []),
                      'env': {'RAYON_NUM_THREADS': str(threads)}})
        o.append({'op': 'files'})
    return o


def expect(case, err):
    """what's wrong with the message, if anything"""
    what = case['outcome'][0]
    lines = err.split('\n')
    if what == 'load':
        want = ['Error loading module m%d' % m for m in sorted(case['outcome'][1])]
        if [l for l in lines if l.startswith('Error loading')] != want:
            return 'not all modules which cannot be loaded are reported, by name'
    elif what == 'definition':
        _, m, d = case['outcome']
        if not any('Error evaluating formula in "m%d.csvpp"' % b in err and 'w_m%d_%s' % (b, x) in err
                   for b in case['blamable'] for x in ([d] if b == m else case['wrong'][b - 1])):
            return 'not the first definition which is wrong is reported'
    elif what == 'cell':
        _, r, c = case['outcome']
        if not err.startswith('Error evaluating formula in cell %s (%d, %d) of "main.csvpp"' % (address(r, c), c - 1, r - 1)) \
                or 'w_%d_%d' % (r, c) not in err:
            return 'not the first cell which is wrong is reported'


def judge(rep, case, obs):
    given = dict(files=files(case), outcome=case['outcome'])
    if obs in ('crash', 'hang'):
        return rep.violation('the compiler crashed', observed=obs, **given)
    at = len(files(case)) + 1
    runs, made = obs[at:at + 4], obs[at + 4]
    for o in runs:
        if 'panic' in o:
            return rep.violation('the compiler crashed', observed=o, **given)
    fails = case['outcome'][0] != 'ok'
    if any(o['ok'] == fails for o in runs):
        return rep.violation('whether it compiles is not always the same' if len({o['ok'] for o in runs}) > 1 else
                             'a mistake is not reported, or there is none', observed=runs, **given)
    if len({o.get('err') for o in runs}) > 1:
        return rep.violation('the message is not always the same', observed=[o['err'] for o in runs], **given)
    if fails:
        wrong = expect(case, runs[0]['err'])
        if wrong:
            return rep.violation(wrong, observed=runs[0]['err'], **given)
        if any(f[0] in 'ab' for f in made):
            return rep.violation('there is an output', observed=sorted(made), **given)
    else:
        want = [['=(%d + %d)' % (r, c) if k == 'ok' else '=1' for c, k in enumerate(row, 1)] for r, row in enumerate(case['cells'], 1)]
        got = [[x.replace('((', '(').replace('))', ')') for x in row] for row in runs[0]['rows']]
        if got != want:
            return rep.violation('the cells are not those of the module', expected=want, observed=got, **given)
        if any(o['rows'] != runs[0]['rows'] for o in runs) or runs[0].get('gsheets') != runs[2].get('gsheets') \
                or made['a.csv'] != made['b.csv'] or made['a.xlsx'] != made['b.xlsx']:
            return rep.violation('the output is not always the same', observed=runs, **given)
    if case.get('cli'):
        clis, now = obs[at + 5:at + 9], obs[at + 9]
        for o in clis:
            if o['timeout'] or o['signal'] or (o['rc'] != 0) != fails:
                return rep.violation('the exit status is not always the same', observed=o, **given)
        said = {(o['stdout'] + o['stderr']) for o in clis}
        if len(said) > 1:
            return rep.violation('the message of another process is different', observed=sorted(said), **given)
        if fails:
            body = [l.strip() for l in (clis[0]['stdout'] + clis[0]['stderr']).split('\n') if l.strip()]
            if [l.strip() for l in runs[0]['err'].split('\n') if l.strip() and l.strip() not in body]:
                return rep.violation('the message of another process is different', expected=runs[0]['err'], observed=body, **given)
        elif len({now['c%d.csv' % i] for i in range(3)} | {made['a.csv']}) > 1 or now['c3.xlsx'] != made['a.xlsx']:
            return rep.violation('the output of another process is different', observed=now, **given)
    rep.extra[case['outcome'][0]] = rep.extra.get(case['outcome'][0], 0) + 1
    rep.ok(given)


def check(rep, tier, scratch):
    rng = random.Random(lib.seed())
    quick = tier == 'quick'
    lib.tlc(scratch, 'Eval', 'Eval_live.cfg', rep.stats)
    cases = []
    for cfg, n in (('cells' if quick else 'cells3', 700), ('defs', 700), ('loads', 300), ('all', 500)):
        some = lib.tlc(scratch, 'Eval', 'Eval_%s.cfg' % cfg, rep.stats, seed=lib.seed(), timeout=3000, xmx='16g')
        seen, of = set(), []
        for c in some:
            # most of the cells are the same with and without imports
            k = str((c['cells'], c['uses'] if cfg != 'cells' else 0, c['kind'], c['wrong']))
            if k not in seen:
                seen.add(k)
                of.append(c)
        rng.shuffle(of)
        of = of[:n if quick else n * 25]
        for c in of[:25 if quick else 400]:
            c['cli'] = True
        cases += of
    for seed in range(1, 4 if quick else 40):
        for c in lib.tlc(scratch, 'Eval', 'Eval_wide.cfg', rep.stats, seed=lib.seed() + seed, simulate=40, depth=200, timeout=3000):
            cases.append(c)
    for case, obs in lib.replay(scratch, cases, steps, nworkers=4, extra_env={'RAYON_NUM_THREADS': '4'}):
        judge(rep, case, obs)
