"""Something which behaves like Google Sheets, as far as csv++ uses it, on the loopback interface"""
import base64
import copy
import http.server
import json
import os
import re
import socket
import ssl
import subprocess
import threading
import urllib.parse
import lib

HTML = b'<html><body>Something went wrong</body></html>'


class Spreadsheet:
    """What a spreadsheet contains: tabs = [{title, id, cells: {(row, column): CellData}, spilled}]"""
    def __init__(self, tabs):
        self.tabs = tabs
        self.copies = []
        self.lock = threading.Lock()
        self.begin({}, [])

    def begin(self, faults, edits):
        """a run begins: `faults` maps phases to what they're answered with, edits are (phase, function)
        which happen before it"""
        self.faults, self.edits = faults, edits
        self.requests, self.accounts = [], set()

    def enter(self, what):
        self.requests.append(what)
        for e in [e for e in self.edits if e[0] == what]:
            e[1](self)
            self.edits.remove(e)


def displayed(cell):
    """what's sent when a cell is read"""
    o = dict(cell)
    if 'userEnteredValue' in cell:
        o['effectiveValue'] = cell['userEnteredValue']
        o['formattedValue'] = str(list(cell['userEnteredValue'].values())[0])
    if 'userEnteredFormat' in cell:
        o['effectiveFormat'] = cell['userEnteredFormat']
    return o


WRITABLE = {'userEnteredValue', 'userEnteredFormat', 'note', 'textFormatRuns', 'dataValidation', 'pivotTable'}


def read_tab(tab, trimmed):
    rows = []
    cells = dict(tab['cells'])
    height = max([r for r, _ in cells] + [r for r, _ in tab['spilled']] + [-1]) + 1
    for r in range(height):
        values = []
        width = max([c for y, c in cells if y == r] + [c for y, c in tab['spilled'] if y == r] + [-1]) + 1
        for c in range(width if trimmed else max(width, 5)):
            cell = displayed(cells.get((r, c), {}))
            if (r, c) in tab['spilled'] and 'userEnteredValue' not in cell:
                cell.update(effectiveValue={'stringValue': 'a'}, formattedValue='a')
            values.append(cell)
        rows.append({'values': values} if values else {})
    data = {'rowData': rows} if rows else {}
    return {'properties': {'sheetId': tab['id'], 'title': tab['title'], 'gridProperties': {'rowCount': 10000, 'columnCount': 26}},
            'data': [data]}


class Wrong(Exception):
    pass


def update(s, body):
    """all of the requests or none of them"""
    tabs = copy.deepcopy(s.tabs)
    if not body.get('requests'):
        raise Wrong('Must specify at least one request.')
    for rq in body['requests']:
        if list(rq) == ['addSheet']:
            p = rq['addSheet'].get('properties') or {}
            tabs.append({'title': p.get('title', 'new'), 'id': p.get('sheetId', 4711 + len(tabs)), 'cells': {}, 'spilled': set()})
            continue
        if list(rq) != ['updateCells']:
            raise Wrong('unknown request')
        u = rq['updateCells']
        at = u.get('start')
        if at is None:
            g = u['range']
            at = {'sheetId': g.get('sheetId', 0), 'rowIndex': g.get('startRowIndex', 0), 'columnIndex': g.get('startColumnIndex', 0)}
        tab = [t for t in tabs if t['id'] == at.get('sheetId', 0)]
        if not tab:
            raise Wrong('No grid with id: %s' % at.get('sheetId', 0))
        if not u.get('fields'):
            raise Wrong('Must specify at least one field')
        fields = {f.split('.')[0].split('(')[0] for f in u['fields'].split(',')}
        if '*' in fields:
            fields = WRITABLE
        for y, row in enumerate(u.get('rows') or []):
            for x, cell in enumerate(row.get('values') or []):
                p = (at.get('rowIndex', 0) + y, at.get('columnIndex', 0) + x)
                new = {k: v for k, v in tab[0]['cells'].get(p, {}).items() if k not in fields}
                new.update({k: v for k, v in cell.items() if k in fields and k in WRITABLE and v not in (None, {}, [])})
                if 'userEnteredValue' in new:
                    tab[0]['spilled'].discard(p)     # (the formula it was from is in error)
                if new:
                    tab[0]['cells'][p] = new
                else:
                    tab[0]['cells'].pop(p, None)
    s.tabs = tabs


class Google:
    def __init__(self, scratch):
        self.dir = scratch.sub('google')
        self.sheets = {}
        self.net = os.path.join(self.dir, 'net.so')
        sh = lambda *a: self.sh(a)
        sh('gcc', '-shared', '-fPIC', '-O1', '-o', self.net, os.path.join(lib.VERIF, 'harness', 'net.c'))
        p = lambda f: os.path.join(self.dir, f)
        ec = ['-newkey', 'ec', '-pkeyopt', 'ec_paramgen_curve:prime256v1', '-nodes']
        sh('openssl', 'req', '-x509', *ec, '-keyout', p('ca.key'), '-out', p('ca.pem'), '-days', '2', '-subj', '/CN=verif',
           '-addext', 'basicConstraints=critical,CA:TRUE')
        sh('openssl', 'req', *ec, '-keyout', p('server.key'), '-out', p('server.csr'), '-subj', '/CN=server')
        with open(p('ext'), 'w') as f:
            f.write('basicConstraints=CA:FALSE\nsubjectAltName=DNS:*.googleapis.com,DNS:*.google.com\n')
        sh('openssl', 'x509', '-req', '-in', p('server.csr'), '-CA', p('ca.pem'), '-CAkey', p('ca.key'), '-CAcreateserial',
           '-days', '2', '-extfile', p('ext'), '-out', p('server.pem'))
        sh('openssl', 'genrsa', '-out', p('rsa.pem'), '2048')
        self.rsa = open(p('rsa.pem')).read()
        context = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
        context.load_cert_chain(p('server.pem'), p('server.key'))
        google = self

        class Handler(http.server.BaseHTTPRequestHandler):
            protocol_version = 'HTTP/1.1'
            timeout = 60

            def setup(self):
                self.request.settimeout(60)
                self.request = context.wrap_socket(self.request, server_side=True)
                super().setup()

            def log_message(self, *a):
                pass

            def handle_any(self):
                body = self.rfile.read(int(self.headers.get('content-length') or 0))
                if self.headers.get('transfer-encoding') == 'chunked':
                    while True:
                        n = int(self.rfile.readline(), 16)
                        body += self.rfile.read(n)
                        self.rfile.readline()
                        if n == 0:
                            break
                status, answer = google.answer(self.command, self.path, body)
                if status == 'close':
                    self.close_connection = True
                    try:
                        self.request.shutdown(socket.SHUT_RDWR)
                    except OSError:
                        pass
                    return
                kind = 'application/json'
                if isinstance(answer, bytes):
                    kind, o = 'text/html', answer
                else:
                    o = json.dumps(answer).encode()
                self.send_response(status)
                self.send_header('content-type', kind)
                self.send_header('content-length', str(len(o)))
                self.end_headers()
                self.wfile.write(o)

            do_GET = do_POST = do_PUT = do_PATCH = do_DELETE = handle_any

        class Server(http.server.ThreadingHTTPServer):
            daemon_threads = True
            request_queue_size = 128

            def handle_error(self, request, address):
                pass

        self.server = Server(('127.0.0.1', 0), Handler)
        threading.Thread(target=self.server.serve_forever, daemon=True).start()

    def sh(self, a):
        r = subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise lib.ToolError('%s failed: %s' % (a[0], r.stdout))

    def env(self):
        return {'LD_PRELOAD': self.net, 'CSVPP_VERIF_PORT': str(self.server.server_address[1]),
                'SSL_CERT_FILE': os.path.join(self.dir, 'ca.pem')}

    def credentials(self, account, sheet_id):
        if account == 'service':
            return {'type': 'service_account', 'client_email': 'service:' + sheet_id, 'private_key': self.rsa,
                    'token_uri': 'https://oauth2.googleapis.com/token', 'private_key_id': 'x', 'project_id': 'x',
                    'client_id': 'x', 'auth_uri': 'https://accounts.google.com/o/oauth2/auth'}
        return {'type': 'authorized_user', 'client_id': 'x', 'client_secret': 'y', 'refresh_token': account + ':' + sheet_id}

    def answer(self, method, path, body):
        url = urllib.parse.urlparse(path)
        if 'token' in url.path:
            form = urllib.parse.parse_qs(body.decode())
            who = form.get('refresh_token', [''])[0]
            if 'assertion' in form:
                payload = form['assertion'][0].split('.')[1]
                who = json.loads(base64.urlsafe_b64decode(payload + '=' * (-len(payload) % 4)))['iss']
            account, sheet_id = who.split(':')
            s = self.sheets[sheet_id]
            with s.lock:
                s.accounts.add(account)
                if 'token' in s.faults:
                    return self.failure(s.faults['token'], {'error': 'invalid_grant', 'error_description': 'no'})
            return 200, {'access_token': account, 'expires_in': 3600, 'token_type': 'Bearer'}
        m = re.fullmatch(r'/v4/spreadsheets/([^/:]+)(:batchUpdate)?', url.path)
        d = re.fullmatch(r'/drive/v3/files/([^/:]+)/copy', url.path)
        s = self.sheets.get((m or d).group(1)) if m or d else None
        if s is None:
            return 404, {'error': {'code': 404, 'message': 'Requested entity was not found.', 'status': 'NOT_FOUND'}}
        with s.lock:
            what = 'copy' if d else 'update' if m.group(2) else 'get'
            s.enter(what)
            if what in s.faults:
                return self.failure(s.faults[what], {'error': {'code': s.faults[what], 'message': 'no', 'status': 'FAILED'}})
            if what == 'copy':
                s.copies.append(copy.deepcopy(s.tabs))
                return 200, {'kind': 'drive#file', 'id': 'copy', 'name': 'Copy', 'mimeType': 'application/vnd.google-apps.spreadsheet'}
            if what == 'get':
                query = urllib.parse.parse_qs(url.query)
                tabs = [read_tab(t, len(s.requests) % 2) for t in s.tabs]
                if query.get('includeGridData') != ['true']:
                    for t in tabs:
                        del t['data']
                return 200, {'spreadsheetId': m.group(1), 'sheets': tabs}
            try:
                update(s, json.loads(body))
            except Wrong as e:
                return 400, {'error': {'code': 400, 'message': str(e), 'status': 'INVALID_ARGUMENT'}}
            return 200, {'spreadsheetId': m.group(1), 'replies': [{}]}

    def failure(self, how, answer):
        if how == 'close':
            return how, None
        if how == 'html':
            return 502, HTML
        return how, answer
