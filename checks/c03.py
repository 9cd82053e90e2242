"""What names refer to across modules: Scope.tla"""
import json
import lib


def group(cases):
    """the cells of a program all go in the same file"""
    progs = {}
    for c in cases:
        key = json.dumps([c['mods'], c['cellvar'], c['kv']], sort_keys=True)
        progs.setdefault(key, dict(c, cells=[]))['cells'].append((c['cell'], c['want'], c['cyclic']))
    return list(progs.values())


def source(m, text, after):
    uses = ['use ' + u for u in text['uses']]
    return '\n'.join(text['defs'] + uses if after else uses + text['defs']) + '\n---\n'


def files(case):
    n = len(json.dumps(case['mods'])) % 2 == 0
    o = {}
    for m, text in case['mods'].items():
        o[m + '.csvpp'] = source(m, text, n and m != 'm1')
        if m != 'main':
            # the cells of a dependency are of no interest to anyone
            o[m + '.csvpp'] += '[[var=z]]junk,[[var=c]],=a\n'
    main = '[[var=b]]\n' if case['cellvar'] else 'first\n'
    o['main.csvpp'] += main + ''.join('"=%s"\n' % c[0] for c in case['cells'])
    return o


def steps(case):
    o = [{'op': 'write', 'path': p, 'text': t} for p, t in files(case).items()]
    kv = ['b=77'] if case['kv'] else []
    o.append({'op': 'compile', 'main': 'main.csvpp', 'args': {'no_cache': True, 'kv': kv}})
    o.append({'op': 'compile', 'main': 'main.csvpp', 'args': {'kv': kv}})
    return o


def judge(rep, case, obs):
    info = dict(files=files(case), key_values=case['kv'])
    if obs in ('crash', 'hang'):
        return rep.violation('the compiler %s' % obs, **info)
    for o in obs[-2:]:
        if 'panic' in o or not o['ok']:
            return rep.violation('a program was not compiled', observed=o, **info)
        got = [r[0] if r else '' for r in o['rows'][1:]]
        for (cell, want, cyclic), g in zip(case['cells'], got):
            if not cyclic and g != '=' + want:
                return rep.violation('a name was resolved to the wrong definition', cell=cell, expected='=' + want, observed=g,
                                     **info)
        if len(got) != len(case['cells']):
            return rep.violation('cells are missing', observed=o, **info)
    rep.ok(dict(info, cells=case['cells']))


def check(rep, tier, scratch):
    cases = lib.tlc(scratch, 'Scope', 'Scope_quick.cfg', rep.stats, seed=lib.seed())
    cases += lib.tlc(scratch, 'Scope', 'Scope_both.cfg', rep.stats, seed=lib.seed())
    cases += lib.tlc(scratch, 'Scope', 'Scope_large.cfg', rep.stats, seed=lib.seed(), timeout=600)
    if tier != 'quick':
        cases += lib.tlc(scratch, 'Scope', 'Scope_graphs.cfg', rep.stats, timeout=5000)
        for i in range(6):
            cases += lib.tlc(scratch, 'Scope', 'Scope_deep.cfg', rep.stats, seed=lib.seed() + 1000 + i, timeout=3000)
    progs = group(cases)
    for case, obs in lib.replay(scratch, progs, steps):
        judge(rep, case, obs)
    rep.extra['programs'] = len(progs)
    rep.extra['cells'] = sum(len(p['cells']) for p in progs)
    rep.extra['cyclic_cells'] = sum(c[2] for p in progs for c in p['cells'])
