"""shared by the property modules"""
import json
import math

from .. import gen, refmodel as rm, seam
from ..engine import Violation, place_faults, follow_up, place_preempts, random_knobs

TEXT = [c for c in gen.COLUMNS if c not in gen.NUMERIC]


def clone(plan):
    return json.loads(json.dumps(plan))


def canon_text(value):
    if value is None:
        return ''
    if isinstance(value, float) and math.isnan(value):
        return ''
    return value


def canon_num(value):
    if value is None or value == '':
        return None
    value = float(value)
    return None if math.isnan(value) else value


def rows_of(frame):
    """list of plain dicts of a catalogue table"""
    out = []
    columns = list(frame.columns)
    data = {col: frame[col].tolist() for col in columns}
    for i in range(frame.shape[0]):
        row = {}
        for col in columns:
            value = data[col][i]
            row[col] = canon_num(value) if col in gen.NUMERIC else canon_text(value)
        out.append(row)
    return out


def same_num(a, b, tol=1e-12):
    if a is None or b is None:
        return a is None and b is None
    if a == b:
        return True
    if math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) <= tol * max(abs(a), abs(b)) or abs(a - b) < 1e-300


def row_diff(got, want, tol=1e-12):
    """None, or a text saying where the rows differ"""
    for col in gen.COLUMNS:
        if col not in got:
            return 'column %s is missing' % col
        if col in gen.NUMERIC:
            if not same_num(got[col], want[col], tol):
                return '%s is %r instead of %r' % (col, got[col], want[col])
        elif got[col] != want[col] or not isinstance(got[col], str):
            return '%s is %r instead of %r' % (col, got[col], want[col])
    return None


def table_diff(got, want, tol=1e-12):
    if len(got) != len(want):
        return '%d rows instead of %d' % (len(got), len(want))
    more = [col for col in got[0] if col not in gen.COLUMNS] if got else []
    if more:
        return 'a column %r that the table does not have' % more[0]
    for i, (grow, wrow) in enumerate(zip(got, want)):
        diff = row_diff(grow, wrow, tol)
        if diff:
            return 'row %d: %s' % (i, diff)
    return None


def frame_of(rows):
    import numpy as np
    import pandas as pd
    data = {}
    for col in gen.COLUMNS:
        values = [row[col] for row in rows]
        if col in gen.NUMERIC:
            data[col] = np.array([np.nan if v is None else v for v in values], dtype=float)
        else:
            data[col] = pd.Series(values, dtype=object)
    return pd.DataFrame(data, columns=gen.COLUMNS)


def write_files(run, files, base='db/UserData'):
    for name, spec in files.items():
        run.world.put(base + '/' + name, rm.render(spec))


def outcome_ok_or_fault(out, code, what):
    """an operation into which a fault may have been injected: without a fault it
    has to succeed"""
    if not out.ok and not out.faulted:
        from ..engine import _where
        raise Violation(code, '%s without any fault: %s%s' % (what, out.describe(), _where(out.exc)))


def faults_in(plan, op_id):
    return [f for f in plan.get('faults', []) if f['op'] == str(op_id)]


# -- what a rebuild has to produce ------------------------------------------------------
RII = 'db/RefractiveIndexInfo/database/'


class Near(object):
    """a value right at the edge of a range: either answer is fine"""


def reference_nk(meaning, ref):
    """(n, k, slack), (None, None, 0) outside the range, or Near"""
    lam = rm.to_metre(ref['Value'], ref['SpectrumType'], ref['Unit'])
    lower, upper = meaning.range_m()
    for edge in (lower, upper):
        if edge and edge == lam and lower < upper:
            value = meaning.nk(lam)         # the ends belong to the range
            return value.real, value.imag, slack(meaning, lam)
        if edge and abs(lam - edge) <= 1e-6 * lam:
            return Near
    if not meaning.covers(lam):
        return None, None, 0.0
    value = meaning.nk(lam)
    return value.real, value.imag, slack(meaning, lam)


def slack(meaning, lam):
    """by how much the rounding in conversions of units, which moves the point by up to 1e-8, changes the value"""
    lower, upper = meaning.range_m()
    want = meaning.nk(lam)
    return max([0.0] + [abs(meaning.nk(near) - want) for near in (lam * (1 - 2e-8), lam * (1 + 2e-8))
                        if lower < near < upper])


def file_row(module, name, spec, ref):
    """the catalogue row of a file of UserData or Filmetrics"""
    meaning = rm.Meaning(spec, 'wavelength', 'nm')
    lower, upper = meaning.range_m()
    meta = spec['meta']
    return {'Alias': '', 'Name': name[:-4], 'FullName': meta.get('FullName', ''), 'Author': meta.get('Author', ''),
            'Comment': meta.get('Comment', ''), 'Reference': meta.get('Reference', ''),
            'SpectrumType': 'wavelength', 'Unit': 'nanometer', 'SpectrumLowerBound': lower * 1e9,
            'SpectrumUpperBound': upper * 1e9, 'nk': reference_nk(meaning, ref), 'Path': name, 'Module': module}


def page_row(book, full, page, spec, ref, datadir):
    meaning = rm.Meaning(spec, 'wavelength', 'um')
    lower, upper = meaning.range_m()
    meta = spec['meta']
    return {'Alias': '', 'Name': book, 'FullName': full, 'Author': page['PAGE'],
            'Comment': meta.get('Comment', ''), 'Reference': meta.get('Reference', ''),
            'SpectrumType': 'wavelength', 'Unit': 'micrometer', 'SpectrumLowerBound': lower * 1e6,
            'SpectrumUpperBound': upper * 1e6, 'nk': reference_nk(meaning, ref),
            'Path': 'database/' + datadir + '/' + page['data'], 'Module': 'RefractiveIndexInfo'}


def pages_of(rii):
    for shelf in rii['shelves']:
        for book in shelf['content']:
            if 'BOOK' in book:
                for page in book['content']:
                    if 'PAGE' in page:
                        yield book, page


def module_rows(module, files, ref):
    """files: {name: spec} or, for RefractiveIndexInfo, the library description"""
    if module == 'RefractiveIndexInfo':
        return [page_row(book['BOOK'], book['name'], page, files['files'][page['data']], ref, files['datadir'])
                for book, page in pages_of(files) if page['data'] in files['files']]
    return [file_row(module, name, spec, ref) for name, spec in files.items()
            if name.endswith(('.txt', '.csv', '.yml'))]


def expected_diff(got, want):
    """compare a row of a catalogue with what file_row/page_row say"""
    for col in gen.COLUMNS:
        if col in ('N_Reference', 'K_Reference'):
            continue
        if col in gen.NUMERIC:
            if not same_num(got[col], want[col], 1e-6):
                return '%s is %r instead of %r' % (col, got[col], want[col])
        elif got[col] != want[col]:
            return '%s is %r instead of %r' % (col, got[col], want[col])
    if want['nk'] is Near:
        return None
    n, k, steep = want['nk']
    if n is None:
        if got['N_Reference'] is not None or got['K_Reference'] is not None:
            return 'reference n, k are %r, %r although the reference is outside the range' % (
                got['N_Reference'], got['K_Reference'])
        return None
    if got['N_Reference'] is None or got['K_Reference'] is None:
        return 'reference n, k are missing, the file gives %r, %r' % (n, k)
    if not rm.close(complex(got['N_Reference'], got['K_Reference']), complex(n, k), slack=2 * steep):
        return 'reference n, k are %r, %r, the file gives %r, %r' % (got['N_Reference'], got['K_Reference'], n, k)
    return None


def key_of(row):
    return (row['Module'], row['Path'], row['Name'], row['Author'], row['FullName'])


def match_rows(got, want):
    """None or a text: got and want hold the same rows in any order"""
    got = sorted(got, key=key_of)
    want = sorted(want, key=key_of)
    gkeys, wkeys = [key_of(r) for r in got], [key_of(r) for r in want]
    if gkeys != wkeys:
        left = list(gkeys)
        missing = []
        for key in wkeys:
            if key in left:
                left.remove(key)
            else:
                missing.append(key)
        return 'rows missing: %r, rows too many: %r' % (missing[:3], left[:3])
    for grow, wrow in zip(got, want):
        diff = expected_diff(grow, wrow)
        if diff:
            return 'row of %s: %s' % (wrow['Path'], diff)
    return None


# -- a refractiveindex.info tree ----------------------------------------------------------
def rii_tree(rng, pages=None):
    count = rng.randint(0, 6) if pages is None else pages
    files, listed = {}, []
    for i in range(count):
        name = '%s/%s/%s%d.yml' % (rng.choice(['main', 'organic', 'other']), rng.choice(['Ag', 'TiO2', 'CH4']),
                                   rng.choice(['Johnson', 'Palik', 'Müller-', 'nk']), i)
        spec = gen.spec(rng, rii=True, default_unit='um', simple=True)
        if rng.random() < 0.85:
            files[name] = spec
        if rng.random() < 0.93:
            listed.append(name)
        if rng.random() < 0.06:
            listed.append(name)
    shelves = []
    while listed or not shelves:
        books = []
        for b in range(rng.randint(1, 3)):
            if rng.random() < 0.3:
                books.append({'DIVIDER': 'divider %d' % b})
            take = rng.randint(0, 3)
            content = []
            for name in listed[:take]:
                if rng.random() < 0.3:
                    content.append({'DIVIDER': gen.word(rng)})
                content.append({'PAGE': gen.text(rng), 'name': gen.word(rng), 'data': name})
            del listed[:take]
            books.append({'BOOK': gen.text(rng), 'name': gen.text(rng), 'content': content})
        shelves.append({'SHELF': 'shelf%d' % len(shelves), 'name': gen.word(rng), 'content': books})
        if len(shelves) > 8:
            break
    return {'shelves': shelves, 'files': files, 'lib': rng.choice(['catalog-nk.yml', 'library.yml', 'both']),
            'datadir': rng.choice(['data', 'data', 'data-nk'])}


def library_text(shelves):
    """the library as YAML (JSON strings are YAML strings)"""
    quote = rm.yaml_text
    out = []
    for shelf in shelves:
        out += ['- SHELF: %s' % quote(shelf['SHELF']), '  name: %s' % quote(shelf['name'])]
        out.append('  content:' if shelf['content'] else '  content: []')
        for book in shelf['content']:
            if 'DIVIDER' in book:
                out.append('    - DIVIDER: %s' % quote(book['DIVIDER']))
                continue
            out += ['    - BOOK: %s' % quote(book['BOOK']), '      name: %s' % quote(book['name'])]
            out.append('      content:' if book['content'] else '      content: []')
            for page in book['content']:
                if 'DIVIDER' in page:
                    out.append('        - DIVIDER: %s' % quote(page['DIVIDER']))
                else:
                    out += ['        - PAGE: %s' % quote(page['PAGE']), '          name: %s' % quote(page['name']),
                            '          data: %s' % quote(page['data'])]
    return ('\n'.join(out) + '\n').encode('utf-8')


def put_rii(run, rii, base=RII):
    world = run.world
    world.mkdir(base + rii['datadir'])
    text = library_text(rii['shelves'])
    if rii['lib'] in ('catalog-nk.yml', 'both'):
        world.put(base + 'catalog-nk.yml', text)
    if rii['lib'] == 'library.yml':
        world.put(base + 'library.yml', text)
    elif rii['lib'] == 'both':
        world.put(base + 'library.yml', b'- SHELF: old\n  name: old\n  content: []\n')
    for name, spec in rii['files'].items():
        world.put(base + rii['datadir'] + '/' + name, rm.render(spec))
