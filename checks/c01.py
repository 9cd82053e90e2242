"""Cached object code makes no difference: Cache.tla"""
import random
import again
import lib

SRC = {
    'A': {'c1': 'use m1\n---\n', 'c2': 'use m1\nuse m2\n---\n', 'c3': '---\n'},
    'B': {'c1': 'use m2\n---\n', 'bad': 'use m2\noops := := 1\n---\n'},
    'm1': {'c1': 'use m2\nq := p\n---\n', 'c2': 'use m2\nq := p + 1\n---\n', 'c3': 'q := 9\n---\n', 'c4': 'use m2\np := 7\nq := p\n---\n'},
    'm2': {'c1': 'p := 1\n---\n', 'c2': 'p := 2\n---\n', 'c3': 'p := 1 + 1\nq := 5\n---\n', 'none': '---\n', 'bad': 'p := := 1\n---\n',
           'via': 'use m3\np := r\n---\n'},
    'm3': {'c1': 'r := 8\n---\n', 'c2': 'r := 9\n---\n'},
}
CELLS = '=q,=p,=k\n'


def source(f, c):
    return SRC[f][c] + CELLS


def distinct(hist, all_of_it):
    """is everything that's changed after a compilation, or all of it, later than what was before?"""
    last = -1
    for e in hist:
        if e['op'] in ('compile', 'edit', 'touch') and e['t'] <= last and (all_of_it or e['op'] != 'compile'):
            return False
        if e['op'] == 'compile' or all_of_it and e['op'] in ('edit', 'touch'):
            last = e['t']
    return True


def steps(case, all_of_it=False):
    d = 0
    o = [{'op': 'write', 'path': 'd0/%s.csvpp' % f, 'text': source(f, 'via' if f == 'm2' and case['deep'] else 'c1'), 't': 0} for f in SRC if f != 'm3' or case['deep']]
    case['at'] = []
    case['text'] = []
    ordered = distinct(case['hist'], all_of_it) and random.Random(str(case['hist'])).random() < 0.5
    for e in case['hist']:
        path = 'd%d/%s.csvpp' % (d, e['f'])
        if e['op'] in ('edit', 'replace'):
            if e['how'] == 'gone':
                o.append({'op': 'rm', 'path': path})
            else:
                o.append({'op': 'write', 'path': path, 'text': source(e['f'], e['how']), 't': e['t']})
        elif e['op'] == 'touch':
            o.append({'op': 'touch', 'path': path, 't': e['t']})
        elif e['op'] == 'damage':
            how = {'op': 'corrupt', 'path': path[:-2] + 'o', 'how': e['how']}
            if e['how'] in ('older', 'newer'):
                how.update(how='version', version={'older': '0.0.1', 'newer': '999.0.0'}[e['how']])
            o.append(dict(how, path='d%d/%s.csvpo' % (d, e['f'])))
        elif e['op'] == 'remove':
            o.append({'op': 'rm', 'path': 'd%d/%s.csvpo' % (d, e['f'])})
        elif e['op'] == 'move':
            o.append({'op': 'rename', 'path': 'd%d' % d, 'to': 'd%d' % (d + 1)})
            d += 1
        else:
            o.append({'op': 'compile', 'main': path, 'args': {'no_cache': e['how'] == 'nocache', 'kv': ['k=5'] if e['how'] == 'kv' else []}})
            case['at'].append((len(o) - 1, e))
            o.append({'op': 'stamp', 'path': 'd%d' % d, 't': e['t'], 'ordered': ordered})
    return o


def describe(case):
    return ['%s %s %s @%s' % (e['op'], e['f'], e['how'], e['t']) + (' -> %s' % e['want'] if e['want'] else '') for e in case['hist']]


def judge(rep, case, obs):
    info = dict(history=describe(case), sources=SRC)
    if obs in ('crash', 'hang'):
        return rep.violation('the compiler %s' % obs, **info)
    for i, e in case['at']:
        o = obs[i]
        want = None if e['want'] == ['error'] else [['=' + c for c in e['want']]]
        if 'panic' in o:
            return rep.violation('the compiler panicked', step=e, observed=o, **info)
        if want is None and o['ok']:
            return rep.violation('compiled from the cache something which cannot be compiled from scratch', step=e, observed=o, **info)
        if want is not None and (not o['ok'] or o['rows'] != want):
            return rep.violation('the result is not that of compiling from scratch', step=e, expected=want, observed=o, **info)
    rep.ok(dict(history=describe(case)))


def histories(rep, tier, scratch, still=True):
    quick = tier == 'quick'
    cases = []
    for kind in ('', '_older', '_deep'):
        if quick:
            if kind or still:
                lib.tlc(scratch, 'Cache', 'Cache_model%s.cfg' % kind, rep.stats)
            cases += lib.tlc(scratch, 'Cache', 'Cache_short%s.cfg' % kind, rep.stats)
            if kind == '_deep':
                four = lib.tlc(scratch, 'Cache', 'Cache_short4_deep.cfg', rep.stats)
                cases += random.Random(lib.seed()).sample(four, 2500)
        else:
            lib.tlc(scratch, 'Cache', 'Cache_model_t%s.cfg' % kind, rep.stats, timeout=7000)
            lib.tlc(scratch, 'Cache', 'Cache_model_all%s.cfg' % kind, rep.stats, timeout=7000)
            cases += lib.tlc(scratch, 'Cache', 'Cache_short4%s.cfg' % kind, rep.stats)
        cases += lib.tlc(scratch, 'Cache', 'Cache_long%s.cfg' % kind, rep.stats, simulate=40 if quick else 2000, seed=lib.seed(), depth=14)
    return cases


def check(rep, tier, scratch):
    cases = histories(rep, tier, scratch)
    for case, obs in lib.replay(scratch, cases, steps):
        judge(rep, case, obs)
    again.check(rep, tier, scratch, cases)
    rep.extra['histories'] = len(cases)
    rep.extra['compilations'] = sum(len(c['at']) for c in cases)
