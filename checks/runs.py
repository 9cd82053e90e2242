"""Runs of the csvpp binary, see Run.tla"""
import calendar
import os
import random
import subprocess
import lib

SOURCES = {
    'a': 'use dep\n---\n=d + ma\n',
    'b': 'use dep\n---\n=d + mb\n',
    'plain': 'hello\n',
    'code': 'use dep\nx := (1\n---\nv\n',
    'cell': 'x,=(1 +\n',
    'option': 'x,[[nope=1]]y\n',
    'fills': '![[fill]]a\n![[fill]]b\n',
    'call': 'fn f(x) x\n---\n"=f(1, 2)"\n',
    'missing': 'use nowhere\n---\nx\n',
    'var': '[[var]]x\n',
    'close': '=1)\n',
}
DEPS = {'1': 'd := 1\n---\n', '2': 'd := 2\n---\n', 'bad': 'd := := 3\n---\n'}
NOT_UTF8 = 'fffe41c328'


# what the outputs are called, and whether the extension is in capitals: what happens doesn't depend on it
STEMS = ['out', 'out', 'sub/out', 'out.v1', 'sub dir/o.ut put', 'sub/deep/out', './öut', 'out-2024_03_01', 'sub/../out', 'OUT', '.out']


def named(case):
    if 'stem' not in case:
        rng = random.Random(str(case['runs']))
        case['stem'] = rng.choice(STEMS)
        case['capitals'] = rng.random() < .2
        case['in'] = rng.choice(['', '', './', 'src/', 'source files/', 'src/../'])      # where the modules are
    return case


def actual(case, name):
    """the name of a file which the specification calls out.csv or out-something.csv"""
    assert name.startswith('out')
    stem, ext = name.rsplit('.', 1)
    return case['stem'] + stem[3:] + '.' + (ext.upper() if case['capitals'] else ext)


def canonical(case, found):
    """and the other way around, for a list of files"""
    o = {}
    stem = os.path.normpath(case['stem'])
    for f, content in found.items():
        if f in [os.path.normpath(case['in'] + x) for x in ('main.csvpp', 'dep.csvpp')] + ['src/', 'source files/', 'sub/', 'sub dir/', 'sub/deep/']:
            name = f
        elif f.startswith(stem):
            name = 'out' + f[len(stem):]
            if case['capitals'] and name.endswith(('.CSV', '.XLSX')):
                name = name[:name.rindex('.')] + name[name.rindex('.'):].lower()
        else:
            name = 'elsewhere: ' + f
        o[name] = content
    return o


def clock_lib(scratch):
    so = os.path.join(scratch.path, 'clock.so')
    r = subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-o', so, os.path.join(lib.VERIF, 'harness', 'clock.c')],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise lib.ToolError('building the clock failed: ' + r.stdout)
    return so


def seconds(c):
    return calendar.timegm((2024, 3, c['day'], 1 + 12 * c['half'], c['minute'], c['second'], 0, 0, 0))


def backup_name(slot):
    o = '2024_03_%02d' % slot[0]
    if len(slot) > 1:
        o += '-01_%02d' % slot[2]
    if len(slot) > 3:
        o += '_%02d' % slot[3]
    if len(slot) > 4:
        o += '_%09d' % slot[4]
    return 'out-%s%s.csv' % (o, ['AM', 'PM'][slot[1]] if len(slot) > 1 else '')


def put(path, kind, sources):
    if kind == 'absent':
        return [{'op': 'rm', 'path': path}]
    if kind == 'utf8':
        return [{'op': 'writehex', 'path': path, 'hex': NOT_UTF8}]
    return [{'op': 'write', 'path': path, 'text': sources[kind]}]


def put_output(case, t, kind):
    path = actual(case, 'out.' + t)
    o = [{'op': 'rm', 'path': path}, {'op': 'rmdir', 'path': path}]
    if kind == 'dir':
        o.append({'op': 'mkdir', 'path': path})
    elif kind == 'junk':
        o.append({'op': 'writehex', 'path': path, 'hex': NOT_UTF8})
    elif kind == 'old':
        if t == 'csv':
            o.append({'op': 'write', 'path': path, 'text': 'old\n'})
        else:
            o.append({'op': 'mkxlsx', 'path': path, 'sheets': {'main': {'A1': 'old'}}})
    return o


def arguments(case, run):
    t = run['target']
    a = (['--backup'] if run['backup'] else []) + (['--safe'] if run['safe'] else []) + ([] if run['cache'] else ['--no-cache'])
    if t == 'gs':
        a += ['-g', 'some-sheet']
    elif t == 'nodir':
        a += ['-o', 'nodir/out.csv']
    elif t != 'none':
        a += ['-o', actual(case, 'out.' + t) if t in ('csv', 'xlsx') else 'out.' + t]
    return a + [case['in'] + 'main.csvpp']


def steps(case, clock):
    """[(steps, index of the first observation of each run)]"""
    named(case)
    o = [{'op': 'mkdir', 'path': d} for d in ('sub/deep', 'sub dir', 'src', 'source files')]
    o += [{'op': 'write', 'path': actual(case, backup_name(s)), 'text': 'mine'} for s in case['foreign']]
    at = []
    state = {'csv': 'none', 'xlsx': 'none'}
    for run in case['runs']:
        o += put(case['in'] + 'main.csvpp', run['main'], SOURCES) + put(case['in'] + 'dep.csvpp', run['dep'], DEPS)
        for t in state:
            if run['before'][t] != state[t]:
                o += put_output(case, t, run['before'][t])
        at.append(len(o))
        o.append({'op': 'files', 'path': '.'})
        env = {'LD_PRELOAD': clock, 'CSVPP_VERIF_CLOCK': '%d %d' % (seconds(run['clock']), run['clock']['nano'])}
        if run['fault'] != 'no':
            base = os.path.basename(case['stem'])
            # how much room there is depends on nothing in particular
            env.update(CSVPP_VERIF_FULL={'out': base + '.', 'backup': base + '-2024', 'object': '.csvpo'}[run['fault']],
                       CSVPP_VERIF_ROOM=str(len(str(case)) % 3 * (60 if run['fault'] == 'object' else 1)))
        o.append({'op': 'cli', 'args': arguments(case, run), 'env': env})
        o.append({'op': 'files', 'path': '.'})
        o.append({'op': 'read', 'path': actual(case, 'out.csv')})
        o.append({'op': 'xlsx', 'path': actual(case, 'out.xlsx'), 'sheet': 'main'})
        state = run['after']
    return o, at


def contents(t, csv, xlsx):
    if t == 'csv':
        return csv
    c = (xlsx or {}).get('cells', {}).get('A1')
    if c is None:
        return None
    return '=' + c['f'] if c['f'] else c['v']


def describe(case):
    o = []
    for r in case['runs']:
        o.append(dict(main=SOURCES.get(r['main'], r['main']), dep=DEPS.get(r['dep'], r['dep']), outputs=r['before'],
                      command='csvpp ' + ' '.join(arguments(case, r)), full_disk_for=r['fault'], clock=r['clock'], expected=r['stage'], after=r['after']))
    return o


def differences(case, obs, at):
    """what's wrong, and with which of the runs"""
    for n, (run, i) in enumerate(zip(case['runs'], at)):
        before, cli, after, csv, xlsx = obs[i:i + 5]
        before, after = canonical(case, before), canonical(case, after)
        d = []
        fault = run['fault']
        ok = cli['rc'] == 0 if run['stage'] == 'either' else run['stage'] == 'done'
        if cli['timeout'] or cli['signal'] is not None or cli['rc'] in (101, 134):
            d.append('it crashed or hung')
        elif run['full'] and cli['rc'] == 0:
            return []     # it found another name for the backup
        elif ok != (cli['rc'] == 0):
            d.append('the exit status is %s although %s' % (cli['rc'], 'it should succeed' if ok else 'it fails: ' + run['stage']))
        if not ok and cli['rc'] != 0 and not cli['stderr'].strip():
            d.append('it failed without a message')
        written = 'out.' + run['target'] if ok or fault == 'out' else None
        added = sorted(set(after) - set(before) - {written})
        temporary = [f for f in added if fault == 'out' and not f.startswith('out-')]
        added = [f for f in added if f not in temporary]
        for f in before:
            if f not in after:
                d.append('%s was removed' % f)
            elif after[f] != before[f] and f != written:
                d.append('%s was changed' % f)
        if fault == 'backup' and not ok:
            added = []       # what could be written of it
        elif len(added) != len(run['added']) and not (run['stage'] == 'either' and run['backup'] and len(added) < 2):
            d.append('the new files are %s, there should be %d backups' % (added, len(run['added'])))
        for f in added:
            if not (f.startswith('out-') and f.endswith('.' + run['target'])):
                d.append('%s is not the name of a backup' % f)
            elif after[f] != before['out.' + run['target']]:
                d.append('the backup %s is not a copy of what was there before' % f)
        if ok:
            want = run['value'] if run['stage'] == 'either' else run['after'][run['target']]
            got = contents(run['target'], csv, xlsx)
            if (got or '').rstrip('\n') != want:
                d.append('the output contains %r instead of %r' % (got, want))
        if d:
            return [dict(run=n + 1, differences=d, rc=cli['rc'], stderr=cli['stderr'][-600:])]
    return []


def replay(rep, scratch, cases):
    clock = clock_lib(scratch)
    at = {}

    def make(case):
        s, a = steps(case, clock)
        at[id(case)] = a
        return s
    for case, obs in lib.replay(scratch, cases, make, timeout_ms=120000):
        if obs in ('crash', 'hang'):
            raise lib.ToolError('the worker died')
        d = differences(case, obs, at[id(case)])
        if d:
            rep.violation('a run did something else than it should', runs=describe(case), foreign=[actual(case, backup_name(s)) for s in case['foreign']],
                          **d[0])
        else:
            rep.ok(dict(runs=describe(case)))
    rep.extra['runs'] = sum(len(c['runs']) for c in cases)
    rep.extra['failing_runs'] = sum(r['stage'] != 'done' for c in cases for r in c['runs'])
    rep.extra['backups'] = sum(len(r['added']) for c in cases for r in c['runs'])
