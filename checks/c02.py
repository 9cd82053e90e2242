"""Loading modules in any order: Loader.tla, TraceLoader.tla"""
import json, os, random
import lib


def norm(case):
    """4 modules for all of them"""
    case['uses'] = [case['uses'][str(i)] if isinstance(case['uses'], dict) else case['uses'][i] for i in range(len(case['uses']))]
    return case


def name(i):
    return 'main' if i == 0 else 'm%d' % i


def files(case):
    n = len(case['def'])
    o = {'main.csvpp': ''.join('use %s\n' % name(u) for u in case['uses'][0]) + '---\n' +
         ','.join('"=v%d"' % (i + 1) for i in range(n)) + '\n'}
    for i in range(1, n + 1):
        uses = list(case['uses'][i])
        random.Random(str(case['uses']) + str(i)).shuffle(uses)
        t = ''.join('use %s\n' % name(u) for u in uses)
        t += 'own%d := %d\nv%d := %s\n' % (i, 100 + i, i, case['def'][i - 1])
        if case['kind'][i - 1] == 'broken':
            t += 'oops := := 1\n'
        if case['kind'][i - 1] != 'missing':
            o[name(i) + '.csvpp'] = t + '---\n'
    return o


def steps(case):
    f = files(case)
    deps = {k: v for k, v in f.items() if k != 'main.csvpp'}
    return [{'op': 'write', 'path': 'main.csvpp', 'text': f['main.csvpp']},
            {'op': 'sched', 'main': 'main.csvpp', 'files': deps, 'order': [name(m) + '.csvpp' for m in case['order']],
             'expect': [[name(m) for m in o] for o in case['opened']], 'fallback_ms': 250, 'args': {'no_cache': not case['cache']}}]


def outcome(case, o):
    if o['ok']:
        return o['rows'][0]
    return sorted(m for m in range(1, len(case['def']) + 1) if 'loading module %s' % name(m) in o['err'])


def judge(rep, case, obs):
    info = dict(files=files(case), order=case['order'])
    if obs in ('crash', 'hang'):
        return rep.violation('the compiler %s' % obs, **info)
    o = obs[1]
    if o.get('hang'):
        return rep.violation('loading does not end', observed=o, **info)
    if 'panic' in o:
        return rep.violation('loading panicked', observed=o, **info)
    if o['reopened']:
        return rep.violation('a module was read more than once', observed=o, **info)
    if case['failed']:
        if o['ok'] or outcome(case, o) != sorted(case['failed']):
            return rep.violation('not every module which cannot be loaded was reported', expected=case['failed'], observed=o, **info)
    else:
        want = ['=' + (c or 'v%d' % (i + 1)) for i, c in enumerate(case['cells'])]
        if not o['ok'] or o['rows'] != [want]:
            return rep.violation('the outcome depends on the order in which modules are loaded', expected=want, observed=o, **info)
    left = [m + 1 for m, k in enumerate(case['kind']) if k != 'missing' and m + 1 not in case['order']]
    if sorted(o['undelivered']) != sorted(name(m) + '.csvpp' for m in left):
        return rep.violation('not the modules which are used were read', expected=left, observed=o, **info)
    rep.ok(dict(info, outcome=outcome(case, o)))
    case['events'] = [[e, int(n[1])] for e, n in o['events']]


def validate(rep, scratch, cases):
    """are the recorded traces behaviours of the specification?"""
    path = os.path.join(scratch.path, 'traces.ndjson')
    with open(path, 'w') as f:
        for i, c in enumerate(cases):
            n = len(c['def'])
            f.write(json.dumps(dict(id=i, uses=c['uses'] + [[]] * (4 - n), kind=c['kind'] + ['ok'] * (4 - n), events=c['events'])) + '\n')
    accepted = {a['trace'] for a in lib.tlc(scratch, 'TraceLoader', 'TraceLoader.cfg', rep.stats, extra_env={'TRACES': path},
                                            timeout=1500)}
    for i, c in enumerate(cases):
        if i not in accepted:
            rep.violation('a recorded trace of the loader is not a behaviour of the specification', files=files(c), events=c['events'])
    rep.extra['recorded_traces_accepted'] = len(accepted)


def check(rep, tier, scratch):
    quick = tier == 'quick'
    lib.tlc(scratch, 'Loader', 'Loader_small.cfg' if quick else 'Loader_any_all.cfg', rep.stats, seed=lib.seed(), timeout=7000)
    cases = []
    for cfg in ['Loader_any.cfg', 'Loader_dag.cfg', 'Loader_dagbad.cfg'] if quick else ['Loader_any_t.cfg', 'Loader_dag_all.cfg', 'Loader_dagbad.cfg', 'Loader_any4.cfg']:
        cases += [norm(c) for c in lib.tlc(scratch, 'Loader', cfg, rep.stats, seed=lib.seed(), timeout=3000)]
    for i, c in enumerate(cases):
        c['cache'] = i % 3 == 0
    traces = []
    for case, obs in lib.replay(scratch, cases, steps, timeout_ms=40000):
        judge(rep, case, obs)
        if 'events' in case:
            traces.append(case)
    validate(rep, scratch, traces[:4000 if quick else 40000])
    rep.extra['schedules'] = len(cases)
    rep.extra['cyclic_or_failing'] = sum(bool(c['failed']) for c in cases)
