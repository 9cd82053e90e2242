"""The command line: Cli.tla"""
import csv
import io
import random
import lib

MAIN = '=a,=b,z\n'
OLD = 'keep,,\n'
INPUTS = {'main.csvpp', 'd/a.b.csvpp'}
KV = {'x=y': '(x = y)'}


def understood(o):
    return dict(backup=o['backup'], safe=o['safe'], cache=o['cache'], verbosity=o['verbosity'] - 1, credentials=o['credentials'] or '',
                sheet=o['sheet'], input=o['input'], x=o['x'], y=o['y'], kv=o['kv'],
                output=[o['output_kind'], o['output']])


def expected(m):
    kind, where = m['output']
    name = {'csv': 'Csv("%s")', 'excel': 'Excel("%s")', 'ods': 'OpenDocument("%s")', 'google': 'GoogleSheets("%s")'}[kind] % where
    if kind == 'google':
        where = 'https://docs.google.com/spreadsheets/d/' + where
    at = {a: 4294967295 if m[a] == -1 else m[a] for a in 'xy'}
    return dict(m, output=[name, where], kv={k: KV.get(v, v) for k, v in m['kv']}, **at)


def effects(case):
    """should the program itself be run?"""
    if case['status'] != 'ok':
        return True
    m = case['meant'][0]
    return m['output'][0] != 'google' and m['x'] >= 0 and m['y'] >= 0


def steps(case):
    o = [{'op': 'argv', 'args': case['argv']}]
    if case['run']:
        o += [{'op': 'mkdir', 'path': 'd'}] + [{'op': 'write', 'path': p, 'text': MAIN} for p in sorted(INPUTS)]
        o += [{'op': 'write', 'path': p, 'text': OLD} for p in ('out.csv', 'out.CSV', 'd/o.ut.csv')]
        o += [{'op': 'cli', 'args': case['argv']}, {'op': 'ls', 'path': '.'}, {'op': 'ls', 'path': 'd'}]
        if case['status'] == 'ok':
            m = case['meant'][0]
            kind, where = m['output']
            o.append({'op': 'read', 'path': where} if kind == 'csv' else {'op': 'xlsx', 'path': where, 'sheet': m['sheet']})
    return o


def names(o):
    return [f[0] for f in o]


def judge(rep, case, obs):
    given = dict(arguments=case['argv'], meaning=case['status'])
    if obs in ('crash', 'hang') or any(isinstance(o, dict) and 'panic' in o for o in obs):
        return rep.violation('the program crashed', observed=obs, **given)
    o, status = obs[0], case['status']
    was = 'ok' if o['ok'] else 'fails' if o['stage'] == 'args' else 'help' if o['rc'] == 0 else 'usage'
    if was != status:
        return rep.violation('arguments are not accepted or rejected as they should be', observed=o, **given)
    if status == 'ok':
        m = case['meant'][0]
        if understood(o) != expected(m):
            return rep.violation('arguments mean something else', expected=expected(m), observed=understood(o), **given)
    rep.extra[status] = rep.extra.get(status, 0) + 1
    if case['run'] and not ran(rep, case, obs, given):
        return
    rep.ok(given)


def ran(rep, case, obs, given):
    """what the program did"""
    status = case['status']
    cli, top, below = obs[-4:-1] if status == 'ok' else obs[-3:]
    files = set(names(top)) | {'d/' + n for n in names(below)}
    before = {'main.csvpp', 'out.csv', 'out.CSV', 'd', 'd/a.b.csvpp', 'd/o.ut.csv'}
    rc = {'ok': 0, 'fails': 1, 'help': 0, 'usage': 2}[status]
    m = case['meant'][0] if status == 'ok' else None
    if m and m['output'][0] == 'ods':
        rc = 1
    if m and m['input'] not in INPUTS:
        rc = 1

    def wrong(what, **d):
        rep.violation(what, files=sorted(files), run=cli, **dict(given, **d))

    if cli['rc'] != rc:
        return wrong('the exit status is not %d' % rc)
    if rc == 0 and status == 'help':
        if not cli['stdout'] or files != before:
            return wrong('no help was given')
    if rc and not cli['stderr']:
        return wrong('it fails without saying why')
    if status != 'ok':
        if files != before:
            return wrong('there are effects in spite of a mistake')
        rep.extra['runs'] = rep.extra.get('runs', 0) + 1
        return True
    new = files - before
    kind, where = m['output']
    cached = {m['input'][:-1] + 'o'} if m['cache'] and not m['kv'] and m['input'] in INPUTS else set()
    expect = set(cached)
    if rc == 0 and kind == 'excel':
        expect.add(where)
    backups = {n for n in new - expect if n.endswith(('.csv', '.CSV'))}
    if new - backups != expect:
        return wrong('other files were written', expected=sorted(expect))
    if len(backups) != (1 if rc == 0 and m['backup'] and kind == 'csv' else 0):
        return wrong('a backup was made or not made contrary to what was asked for')
    if rc == 0:
        text = {n: KV.get(v, v) for n, v in m['kv']}
        cells = [text.get('a', 'a'), text.get('b', 'b'), 'z']
        if cells[1] == 'a':
            cells[1] = cells[0]
        if kind == 'csv':
            want = ['=' + cells[0], '=' + cells[1], 'z']
            if m['safe']:
                want[0] = 'keep'
            got = list(csv.reader(io.StringIO(obs[-1])))
            if got != [want]:
                return wrong('the output is not what was asked for', expected=want, output=got)
        else:
            got = obs[-1].get('cells')
            if got is None:
                return wrong('the sheet is not called what was asked for', output=obs[-1])
            got = [(got.get(c) or {}).get(k) for c, k in (('A1', 'f'), ('B1', 'f'), ('C1', 'v'))]
            for i in (0, 1):
                if cells[i] == '1':     # a number is a number
                    got[i] = obs[-1]['cells']['AB'[i] + '1']['v']
            if got != cells:
                return wrong('the output is not what was asked for', expected=cells, output=got)
    if m['verbosity'] >= 2 and not cli['stderr']:
        return wrong('nothing is shown in spite of the verbosity')
    if m['verbosity'] == 0 and rc == 0 and cli['stderr']:
        return wrong('something is shown in spite of the verbosity')
    rep.extra['runs'] = rep.extra.get('runs', 0) + 1
    return True



def check(rep, tier, scratch):
    rng = random.Random(lib.seed())
    quick = tier == 'quick'
    cases = lib.tlc(scratch, 'Cli', 'Cli_one.cfg', rep.stats)
    two = lib.tlc(scratch, 'Cli', 'Cli_two.cfg', rep.stats)
    cases += two
    n = 3000 if quick else 60000
    cases += lib.tlc(scratch, 'Cli', 'Cli_good.cfg', rep.stats, simulate=n, depth=20, seed=lib.seed(), timeout=3000)
    cases += lib.tlc(scratch, 'Cli', 'Cli_any.cfg', rep.stats, simulate=n, depth=20, seed=lib.seed(), timeout=3000)
    if not quick:
        three = lib.tlc(scratch, 'Cli', 'Cli_three.cfg', rep.stats, timeout=3000)
        rng.shuffle(three)
        cases += three[:500000]
    seen, some = set(), []
    for c in cases:
        k = tuple(c['argv'])
        if k not in seen:
            seen.add(k)
            some.append(c)
    # the program itself runs on a sample, of which most succeed
    runs = {'ok': .06, 'fails': .02, 'usage': .005, 'help': .02} if quick else {'ok': .3, 'fails': .1, 'usage': .05, 'help': .2}
    for c in some:
        c['run'] = effects(c) and rng.random() < runs[c['status']]
    for case, obs in lib.replay(scratch, some, steps):
        judge(rep, case, obs)
