"""Writing to Google Sheets: Remote.tla"""
import json
import os
import queue
import re
import shutil
import subprocess
import threading
import zlib
import google
import lib

STATUS = [400, 401, 403, 429, 500, 503, 'close', 'html']


def cell_data(cell):
    v = cell['v']
    o = {}
    if v and v != 'a':
        o['userEnteredValue'] = {'formulaValue' if v[0] == '=' else 'numberValue' if v.isdigit() else 'stringValue': int(v) if v.isdigit() else v}
    if cell['u']:
        o.update(note='kept', userEnteredFormat={'textFormat': {'bold': True}}, dataValidation={'condition': {'type': 'BOOLEAN'}})
    return o


def put(tab, r, c, cell):
    tab['cells'].pop((r, c), None)
    d = cell_data(cell)
    if d:
        tab['cells'][(r, c)] = d
    if 'userEnteredValue' in d:
        tab['spilled'].discard((r, c))
    if cell['v'] == 'a':
        tab['spilled'].add((r, c))


def make_tab(t):
    o = {'title': t['title'], 'id': t['id'], 'cells': {}, 'spilled': set()}
    for r, row in enumerate(t['cells']):
        for c, cell in enumerate(row):
            put(o, r, c, cell)
    return o


def looks(tab, r, c):
    """the cell as it is in the specification"""
    d = tab['cells'].get((r, c), {})
    v = ''
    for k, x in (d.get('userEnteredValue') or {}).items():
        v = str(int(x)) if k == 'numberValue' else x
    if not v and (r, c) in tab['spilled']:
        v = 'a'
    return v, d


def compare(tabs, expected, racy=(), racy_tab=0):
    if [t['title'] for t in tabs] != [t['title'] for t in expected]:
        return ['the tabs are %s' % [t['title'] for t in tabs]]
    d = []
    for i, (tab, want) in enumerate(zip(tabs, expected)):
        rows = want['cells']
        for r in range(max([len(rows)] + [p[0] + 1 for p in tab['cells']])):
            for c in range(max([len(rows[0])] + [p[1] + 1 for p in tab['cells'] if p[0] == r])):
                cell = rows[r][c] if r < len(rows) and c < len(rows[r]) else {'v': '', 'u': False}
                if i + 1 == racy_tab and [r + 1, c + 1] in racy:
                    continue
                v, data = looks(tab, r, c)
                name = '%s of the tab %s' % ('ABCDEFGHIJ'[c] + str(r + 1) if c < 10 else (r, c), tab['title'])
                if v != cell['v']:
                    d.append('%s is %r instead of %r' % (name, v, cell['v']))
                elif cell['u'] and data != cell_data(cell):
                    d.append('%s lost something: %s' % (name, data))
                elif not cell['u'] and (data.get('note') or data.get('dataValidation')):
                    d.append('%s has %s left from before' % (name, data))
    return d


def source(run):
    if run['src'] == 'bad':
        return '=(1 +\n'
    return ''.join(','.join('"%s"' % v for v in r) + '\n' for r in run['m'])


class Driver:
    def __init__(self, scratch, rep):
        self.scratch, self.rep = scratch, rep
        self.google = google.Google(scratch)
        self.n = 0
        self.counts = {}

    def command(self, path, run, sheet_id):
        """the arguments and environment"""
        cred = os.path.join(path, 'credentials')
        os.makedirs(os.path.join(path, 'home', '.config', 'gcloud'), exist_ok=True)
        os.makedirs(cred, exist_ok=True)
        def write(name, o):
            with open(name, 'w') as f:
                f.write(o if isinstance(o, str) else json.dumps(o))
            return name
        files = {a: write(os.path.join(cred, a + '.json'), self.google.credentials(a, sheet_id)) for a in ('flag', 'env', 'adc', 'service')}
        e = {'PATH': '/usr/bin:/bin', 'HOME': os.path.join(path, 'home'), 'RAYON_NUM_THREADS': '2', **self.google.env()}
        args = ['-g', sheet_id]
        kind = run['creds']
        flag = {'missing': os.path.join(cred, 'nothing.json'), 'junk': write(os.path.join(cred, 'junk.json'), '{not json'),
                'type': write(os.path.join(cred, 'type.json'), {'type': 'external_account'}), 'service': files['service']}.get(kind)
        if 'flag' in kind or kind == 'all':
            flag = files['flag']
        if flag:
            args += ['--google-account-credentials', flag]
        if 'env' in kind or kind == 'all':
            e['GOOGLE_APPLICATION_CREDENTIALS'] = files['env']
        adc = os.path.join(e['HOME'], '.config', 'gcloud', 'application_default_credentials.json')
        if os.path.exists(adc):
            os.remove(adc)
        if 'adc' in kind or kind == 'all':
            shutil.copy(files['adc'], adc)
        if run['safe']:
            args.append('--safe')
        if run['backup']:
            args.append('--backup')
        if run['name']:
            args += ['--sheet-name', run['name']]
        if run['x']:
            args += ['-x', str(run['x'])]
        if run['y']:
            args += ['--y-offset', str(run['y'])]
        return args + ['--no-cache', 'main.csvpp'], e

    def faults(self, run, case_hash):
        if run['fault'] == 'no':
            return {}
        return {run['fault']: STATUS[case_hash % len(STATUS)]}

    def play(self, number, case):
        """plays a history, returns what went wrong"""
        sheet_id = 'sheet-_%d' % number
        path = self.scratch.sub('google/case%d' % number)
        exe = os.path.join(lib.TARGET, 'debug', 'csvpp-cli')
        s = google.Spreadsheet([make_tab(t) for t in case['start']])
        self.google.sheets[sheet_id] = s
        h = zlib.crc32(json.dumps(case).encode())
        told = []
        try:
            for n, run in enumerate(case['runs']):
                args, env = self.command(path, run, sheet_id)
                with open(os.path.join(path, 'main.csvpp'), 'w') as f:
                    f.write(source(run))
                faults = self.faults(run, h + n)
                edits = []
                for e in run['edits']:
                    def edit(s, e=e):
                        put(s.tabs[e['tab'] - 1], e['r'] - 1, e['c'] - 1, e['cell'])
                    edits.append((e['before'], edit))
                s.begin(faults, edits)
                before = [google.copy.deepcopy(t) for t in s.tabs]
                try:
                    r = subprocess.run([exe] + args, cwd=path, env=env, capture_output=True, text=True, timeout=120, errors='replace')
                except subprocess.TimeoutExpired:
                    return told, n, ['it did not end'], None
                for _, edit in s.edits:
                    edit(s)
                ok = run['stage'] == 'done'
                told.append(dict(source=source(run)[:300], command='csvpp ' + ' '.join(args), credentials=run['creds'], answered=faults,
                                 edits=run['edits'], expected=run['stage'], rc=r.returncode, stderr=r.stderr[-500:], requests=s.requests))
                d = []
                if r.returncode in (101, 134) or r.returncode < 0:
                    d.append('it crashed')
                if run['missing'] and ok:
                    # there's no such tab: it can be created, or it's an error
                    old = s.tabs[:len(before)]
                    if old == before and (r.returncode != 0) == (len(s.tabs) == len(before)):
                        continue
                    wrong = compare(s.tabs, run['after'], run['racy'], run['tab'])
                    return told, n, ['another tab than %s was written to' % run['name']], None if wrong or r.returncode else 'gs-missing-tab'
                if ok != (r.returncode == 0):
                    d.append('the exit status is %d although %s' % (r.returncode, 'it should succeed' if ok else 'it fails'))
                if r.returncode != 0 and not r.stderr.strip():
                    d.append('it failed without a message')
                if s.accounts - {run['account']}:
                    d.append('the account is %s instead of %s' % (sorted(s.accounts), run['account']))
                if len(s.copies) != run['copies']:
                    d.append('there are %d backups instead of %d' % (len(s.copies), run['copies']))
                elif run['copied']:
                    d += ['backup: ' + x for x in compare(s.copies[-1], run['copied'])]
                d += compare(s.tabs, run['after'], run['racy'], run['tab'])
                if d:
                    return told, n, d[:20], None
        finally:
            del self.google.sheets[sheet_id]
            shutil.rmtree(path, ignore_errors=True)
        return told, None, [], None

    def all(self, cases):
        q = queue.Queue()
        for i, c in enumerate(cases):
            q.put((i, c))
        failed = []

        def work():
            try:
                while True:
                    try:
                        i, c = q.get_nowait()
                    except queue.Empty:
                        return
                    told, n, d, key = self.play(self.n + i, c)
                    start = [dict(t, cells=t['cells'][:5]) for t in c['start']]
                    if d:
                        self.rep.violation('the spreadsheet or the result is not what it should be', key=key, run=n + 1, differences=d,
                                           runs=told, start=start)
                    else:
                        self.rep.ok(dict(runs=told, start=start))
            except Exception as e:
                failed.append(e)
        threads = [threading.Thread(target=work) for _ in range(lib.NPROC)]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
        if failed:
            raise failed[0]
        self.n += len(cases)


def check(rep, tier, scratch):
    n = 1 if tier == 'quick' else 12
    cases = []
    for cfg, num in (('histories', 500), ('faults', 700), ('big', 6), ('missing', 30)):
        cases += lib.tlc(scratch, 'Remote', 'Remote_%s.cfg' % cfg, rep.stats, simulate=num * n, depth=40, seed=lib.seed(), workers=1)
    Driver(scratch, rep).all(cases)
    runs = [r for c in cases for r in c['runs']]
    rep.extra['runs'] = len(runs)
    rep.extra['failing_runs'] = sum(r['stage'] != 'done' for r in runs)
    rep.extra['edits_by_others'] = sum(len(r['edits']) for r in runs)
    rep.assumptions.append('what Google Sheets does with the requests: a replica in checks/google.py, from its documentation')
