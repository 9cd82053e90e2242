"""Reads the values in .xlsx files, from what is specified about the format and nothing else"""
import io
import re
import xml.etree.ElementTree as ET
import zipfile

M = '{http://schemas.openxmlformats.org/spreadsheetml/2006/main}'
R = '{http://schemas.openxmlformats.org/officeDocument/2006/relationships}'
PR = '{http://schemas.openxmlformats.org/package/2006/relationships}'


def unescape(t):
    """characters which XML can't have are written as _xHHHH_"""
    return re.sub('_x([0-9A-Fa-f]{4})_', lambda m: chr(int(m[1], 16)), t)


def text_of(si):
    """a text is in one or several runs; phonetic ones don't count"""
    return unescape(''.join(t.text or '' for c in si for t in ([c] if c.tag == M + 't' else c.findall(M + 't') if c.tag == M + 'r' else [])))


def sheets(data):
    """{name: {address: (type, value)}} where type is number, text, bool, formula or error"""
    z = zipfile.ZipFile(io.BytesIO(data))
    for n in z.namelist():
        if n.endswith('.xml') or n.endswith('.rels'):
            ET.fromstring(z.read(n))
    shared = []
    if 'xl/sharedStrings.xml' in z.namelist():
        shared = [text_of(si) for si in ET.fromstring(z.read('xl/sharedStrings.xml')).findall(M + 'si')]
    rels = {r.get('Id'): r.get('Target') for r in ET.fromstring(z.read('xl/_rels/workbook.xml.rels')).findall(PR + 'Relationship')}
    out = {}
    for s in ET.fromstring(z.read('xl/workbook.xml')).find(M + 'sheets'):
        target = rels[s.get(R + 'id')]
        cells = {}
        for c in ET.fromstring(z.read('xl/' + target if not target.startswith('/') else target[1:])).iter(M + 'c'):
            f, v, t = c.find(M + 'f'), c.find(M + 'v'), c.get('t', 'n')
            v = v.text if v is not None else None
            if f is not None:
                cells[c.get('r')] = ('formula', unescape(f.text or ''))
            elif t == 'inlineStr':
                cells[c.get('r')] = ('text', text_of(c.find(M + 'is')))
            elif v is None:
                continue
            elif t == 's':
                cells[c.get('r')] = ('text', shared[int(v)])
            elif t == 'str':
                cells[c.get('r')] = ('text', unescape(v))
            elif t == 'b':
                cells[c.get('r')] = ('bool', {'1': 'TRUE', '0': 'FALSE'}[v])
            else:
                cells[c.get('r')] = ('number' if t == 'n' else t, v)
        out[s.get('name')] = cells
    return out
