"""Modules of all kinds in those histories of Cache.tla in which no source changes: all compilations give the same"""
import random
import re
import c03
import c07
import c14
import c15
import c18
import lib
import options

NAMES = {'A': 'main', 'm1': 'dep'}


def apart(text):
    """a module whose definitions are in another one"""
    lines = text.split('\n')
    i = lines.index('---')
    return {'main.csvpp': 'use dep\n---\n' + '\n'.join(lines[i + 1:]), 'dep.csvpp': '\n'.join(lines[:i + 1]) + '\n'}


def cyclic(case):
    """what refers to itself grows without limit if all of it is evaluated, as it is in a dependency"""
    refers = {}
    for d in list(case['vars'].values()) + list(case['fns'].values()):
        if d:
            names = re.findall(r'[a-z]+', d)
            if names[0] == 'fn':
                names = names[1:]
            refers.setdefault(names[0], set()).update(names[1:])
    def reach(n, seen):
        for m in refers.get(n, ()):
            if m not in seen:
                seen.add(m)
                reach(m, seen)
        return seen
    return any(n in reach(n, set()) for n in refers)


def modules(rep, scratch, quick, rng):
    """modules with options, values, formulas, fills, references, definitions, layout and mistakes from the other specifications"""
    o = []

    def tlc(module, name, n, **kw):
        found = lib.tlc(scratch, module, '%s.cfg' % name, rep.stats, **kw)
        rng.shuffle(found)
        return found[:n if quick else n * 10]
    k = 1 if quick else 10
    sim = lambda n, depth: dict(simulate=n * k, depth=depth, seed=lib.seed())
    for c in tlc('Options', 'Options_single', 10**9) + tlc('Options', 'Options_random', 1200, **sim(150, 18)):
        o.append(dict(what='options', files={'main.csvpp': options.render(c, rng)}))
    for c in tlc('Values', 'Values_sheets', 500, **sim(40, 200)) + tlc('Values', 'Values_texts', 300):
        c14.prepare(c, rng)
        o.append(dict(what='values', files=c['files'], kv=c['kv']))
    for c in tlc('Sheet', 'Sheet_again', 600):
        c['style'] = rng.randrange(12)
        text = c07.src(c)
        o.append(dict(what='fills', files=apart(text) if rng.random() < .5 else {'main.csvpp': text}))
    for c in tlc('LangGen', 'LangGen', 500, **sim(40, 100)):
        text = '\n'.join(d for d in list(c['vars'].values()) + list(c['fns'].values()) if d) + '\n---\n"=%s"\n' % c['cell']
        o.append(dict(what='definitions', files={'main.csvpp': text} if cyclic(c) or rng.random() < .3 else apart(text)))
    for c in tlc('Layout', 'Layout_any', 300, **sim(40, 300)):
        c['crlf'] = rng.random() < .25
        o.append(dict(what='layout', files=c18.files(c)))
    for c in tlc('Mistakes', 'Mistakes_long', 400, **sim(50, 60)):
        c['crlf'] = False
        o.append(dict(what='mistakes', files=c15.files(c)))
    for c in c03.group(tlc('Scope', 'Scope_both', 10**9, seed=lib.seed()))[:600 * k]:
        o.append(dict(what='names', files=c03.files(c), kv=['b=77'] if c['kv'] else [], names={'A': 'main', 'm1': rng.choice(sorted(set(c['mods']) - {'main'}))}))
    for c in o:
        c.setdefault('kv', [])
        if 'names' not in c:
            c['names'] = NAMES
            c['files'].setdefault('dep.csvpp', 'unused := 1\n---\n')
    return o


def same_sources(case):
    last = 0
    for e in case['hist']:
        if e['op'] not in ('compile', 'touch', 'move', 'remove') or e['op'] != 'move' and e['f'] not in NAMES or e['how'] == 'kv':
            return False
        # (all of them later than what was before, for most of the compilations to use what's there)
        if e['op'] == 'touch' and e['t'] <= last:
            return False
        last = e['t']
    return sum(e['op'] == 'compile' for e in case['hist']) >= 2


def steps(case):
    d = 0
    o = [{'op': 'write', 'path': 'd0/' + p, 'text': t, 't': 0} for p, t in case['files'].items()]
    kw = dict({'gsheets': []} if lib.HOOKS else {}, digest=case['what'] == 'fills')
    go = lambda f, how: o.append(dict({'op': 'compile', 'main': 'd%d/%s.csvpp' % (d, case['names'][f]),
                                       'args': {'no_cache': how == 'nocache', 'kv': case['kv'], 'sheet': 's'}}, **kw))
    for f in NAMES:
        go(f, 'nocache')
    case['at'] = [(f, len(case['files']) + i, 'nocache') for i, f in enumerate(NAMES)]
    for e in case['hist']:
        f = e['f'] and case['names'][e['f']]
        if e['op'] == 'compile':
            go(e['f'], e['how'])
            case['at'].append((e['f'], len(o) - 1, e['how']))
            o.append({'op': 'stamp', 'path': 'd%d' % d, 't': e['t'], 'ordered': False})
        elif e['op'] == 'touch':
            o.append({'op': 'touch', 'path': 'd%d/%s.csvpp' % (d, f), 't': e['t']})
        elif e['op'] == 'remove':
            o.append({'op': 'rm', 'path': 'd%d/%s.csvpo' % (d, f)})
        elif e['op'] == 'move':
            o.append({'op': 'rename', 'path': 'd%d' % d, 'to': 'd%d' % (d + 1)})
            d += 1
    return o


def judge(rep, case, obs):
    info = dict(files=case['files'], key_values=case['kv'], history=['%s %s %s @%s' % (e['op'], case['names'].get(e['f'], ''), e['how'], e['t']) for e in case['hist']])
    if obs in ('crash', 'hang'):
        return rep.violation('the compiler %s' % obs, **info)
    first = {}
    for f, i, how in case['at']:
        if 'panic' in obs[i]:
            return rep.violation('the compiler panicked', observed=obs[i], **info)
        o = dict(obs[i])
        if 'err' in o:
            # a message has the path of the directory, which may have moved
            o['err'] = re.sub(r'd\d+/', '', o['err'])
        if first.setdefault(f, o) != o:
            return rep.violation('a module is not the same as when it was compiled from scratch', module=case['names'][f], step=i, how=how,
                                 expected=first[f], observed=o, **info)
    rep.extra['again: ' + case['what']] = rep.extra.get('again: ' + case['what'], 0) + 1
    rep.ok()


def check(rep, tier, scratch, histories):
    rng = random.Random(lib.seed())
    same = [c['hist'] for c in histories if same_sources(c)]
    rng.shuffle(same)
    cases = modules(rep, scratch, tier == 'quick', rng)
    for i, c in enumerate(cases):
        c['hist'] = same[i % len(same)]
    rep.extra['histories without edits'] = len(same)
    for case, obs in lib.replay(scratch, cases, steps):
        judge(rep, case, obs)
