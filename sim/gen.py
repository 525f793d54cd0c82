"""Seeded generators shared by the properties, and independent reference serialisers."""
import csv
import io

ERRNOS_W = ['EIO', 'ENOSPC', 'EDQUOT', 'EFBIG']
ERRNOS_R = ['EIO', 'ESTALE']
ERRNOS_O = ['EIO', 'EACCES', 'EMFILE', 'ENOSPC', 'EROFS']

ASCII = 'abcdefghijklmnopqrstuvwxyz ABCXYZ0123456789_-./:'
SPECIAL = ['"', '""', "'", ',', ';', '\t', '|', '\n', '\r\n', ' ', '#', '\\', '%', '&', '<', '{', '}', '[', '=', '+', '@', '?']
LATIN = 'äöüéßñçÄÖ'
UNI = 'äßλЖ中日本語한글ñœ€ı\u200b\u00ad\u2028\u0085🙂𝔘'


def text(r, *, chars='uni', maxlen=12, special=0.3, newlines=True, minlen=1, cr=False):
    n = r.randint(minlen, maxlen)
    out = []
    pool = {'ascii': ASCII, 'latin': ASCII + LATIN, 'uni': ASCII + UNI}[chars]
    for _ in range(n):
        if r.random() < special:
            c = r.choice(SPECIAL)
            if not newlines and ('\n' in c or '\r' in c):
                c = ','
            if not cr and '\r' in c:
                c = '\n'
            out.append(c)
        else:
            out.append(r.choice(pool))
    return ''.join(out)


def ident(r, n=6):
    return ''.join(r.choice('abcdefghijklmnopqrstuvwxyz') for _ in range(n))


def cell(r, chars='uni', **kw):
    """A cell which means the same to every documented reader: no leading comment prefix, BOM or blanks."""
    s = text(r, chars=chars, **kw)
    if s.strip() != s or s.startswith('#') or not s.strip():
        s = 'x' + s.strip(' \t\n\r').lstrip('#') + 'y'
    return s


def serialise(rows, delimiter=',', quotechar='"', lineterminator='\r\n', quoteall=False):
    """Reference CSV serialiser, independent of csvw and of the csv module (doubled quotes)."""
    out = []
    for row in rows:
        cells = []
        for s in row:
            special = quoteall or s == '' and len(row) == 1 or any(
                c in s for c in (delimiter, quotechar, '\n', '\r')) or s[:1] in (' ', '#')
            if special:
                s = quotechar + s.replace(quotechar, quotechar * 2) + quotechar
            cells.append(s)
        out.append(delimiter.join(cells))
    return lineterminator.join(out) + lineterminator if out else ''


def parse(text, delimiter=',', quotechar='"'):
    """Reference RFC 4180 parser (doubled quotes), independent of csvw and of the csv module."""
    rows, row, cell, i, n, quoted, started = [], [], [], 0, len(text), False, False
    while i < n:
        c = text[i]
        if quoted:
            if c == quotechar:
                if text[i + 1:i + 2] == quotechar:
                    cell.append(quotechar)
                    i += 1
                else:
                    quoted = False
            else:
                cell.append(c)
        elif c == quotechar and not cell:
            quoted = started = True
        elif c == delimiter:
            row.append(''.join(cell))
            cell, started = [], True
        elif c in '\r\n':
            if c == '\r' and text[i + 1:i + 2] == '\n':
                i += 1
            if started or cell or row:
                row.append(''.join(cell))
            rows.append(row)
            row, cell, started = [], [], False
        else:
            cell.append(c)
            started = True
        i += 1
    if quoted:
        raise ValueError('unterminated quote')
    if started or cell or row:
        row.append(''.join(cell))
        rows.append(row)
    return rows


# -- fault plans ---------------------------------------------------------------------------------
def crash_plan(r):
    cls = r.choice([None, None, 'WRITE', 'WRITE', 'RENAME', 'CLOSE', 'OPENW', 'UNLINK', 'READ', 'TRUNC', 'FSYNC'])
    kind = r.choice(['CRASH_BEFORE', 'CRASH_AFTER'] + (['CRASH_TORN'] * 2 if cls == 'WRITE' else []))
    f = {'kind': kind, 'cls': cls or 'ANY', 'frac': round(r.random(), 4)}
    if kind == 'CRASH_TORN':
        f['arg'] = r.choice([0, 1, 100, 500, 900, 999])
    return [f]


def error_plan(r):
    cls = r.choice(['WRITE', 'WRITE', 'WRITE', 'OPENW', 'OPENR', 'READ', 'READ', 'CLOSE', 'RENAME', 'UNLINK', 'STAT', 'CHMOD',
                    'FSYNC', 'TRUNC'])
    arg = {'WRITE': ERRNOS_W, 'CLOSE': ['EIO', 'ENOSPC'], 'READ': ERRNOS_R, 'OPENW': ERRNOS_O,
           'OPENR': ['EIO', 'EACCES', 'EMFILE'], 'RENAME': ['EIO', 'EACCES', 'EPERM', 'ENOSPC', 'EBUSY'],
           'UNLINK': ['EIO', 'EACCES', 'EBUSY'], 'STAT': ['EIO', 'EACCES'], 'CHMOD': ['EPERM', 'EIO'],
           'FSYNC': ['EIO', 'ENOSPC'], 'TRUNC': ['EIO', 'EFBIG']}[cls]
    return [{'kind': 'ERRNO', 'cls': cls, 'arg': r.choice(arg), 'frac': round(r.random(), 4),
             'times': r.choice([1, 1, 1, 2, 1000])}]


def legal_plan(r):
    """Perturbations every correct program must survive: short reads and writes, EINTR."""
    res = []
    for _ in range(r.randint(1, 4)):
        kind = r.choice(['SHORT', 'SHORT', 'EINTR'])
        cls = r.choice(['WRITE', 'WRITE', 'READ', 'READ'] + (['OPENR', 'OPENW'] if kind == 'EINTR' else []))
        res.append({'kind': kind, 'cls': cls, 'frac': round(r.random() * .999, 4), 'arg': r.choice([1, 2, 3, 7, 100, 4095]),
                    'times': r.choice([1, 2, 5, 40] if kind == 'EINTR' else [1, 2, 50, 100000])})
    return res


def sigint_plan(r):
    return [{'kind': 'SIGINT', 'cls': r.choice(['ANY', 'WRITE', 'READ', 'CLOSE', 'RENAME', 'OPENW']), 'frac': round(r.random(), 4)}]


def is_legal(plan):
    return all(f['kind'] in ('SHORT', 'EINTR') for f in plan)


def is_crash(plan):
    return any(f['kind'].startswith('CRASH') for f in plan)
