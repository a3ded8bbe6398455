"""seeded generators for workload content"""
import copy
import math

from . import refmodel as rm

WORDS = ['silver', 'Ag', 'TiO2', 'film', 'bulk', 'NA', 'nan', 'null', 'None', 'True', '007', '1e5', '-0',
         'n/a', 'inf', '12.50', 'Johnson', 'Müller', 'Å', 'μm', '銀', 'Ωmega', 'café', 'a,b', '"quoted"',
         "it's", 'x;y', '#hash', 'k=v', 'semi;colon', 'tab\tbed', '%s', '{}', '\\back', "''", 'yes', 'no', 'on',
         '~', '0x1F', '2020-01-01', '1_000', '.5', '[a]', '{b}', '&c', '*d', '!e', '|', '>', '@f', '`g', '?', '-']


def word(rng):
    return rng.choice(WORDS)


def text(rng, multiline=False, colons=True):
    """printable text of any kind"""
    style = rng.random()
    if style < 0.1:
        return ''
    if style < 0.45:
        return word(rng)
    parts = [word(rng) for _ in range(rng.randint(1, 5))]
    sep = rng.choice([' ', ' ', ', ', '"', '  '])
    out = sep.join(parts)
    if colons and rng.random() < 0.2:
        out = 'see: ' + out
    if multiline and rng.random() < 0.3:
        out += rng.choice(['\n', '\r\n', '\n\n', ',\n"', '\r', '\u2028']) + word(rng)
    if rng.random() < 0.1:
        out = rng.choice([' ', '']) + out + rng.choice([' ', ''])
    if rng.random() < 0.08:
        out += rng.choice(['x' * 300, 'ä' * 100])
    return out


def line(rng):
    """one line without leading blanks, for text file metadata"""
    return text(rng).strip().replace('\t', ' ')


def double(rng):
    style = rng.random()
    if style < 0.3:
        return round(rng.uniform(0, 10), rng.randint(0, 6))
    if style < 0.6:
        return rng.uniform(0, 3000)
    if style < 0.8:
        return rng.random() * 10 ** rng.randint(-18, 18)
    return rng.choice([0.0, 1e-300, 1.0 / 3.0, 0.1, 2.0 ** 53, 1e22, 632.8, 123456789.12345678, 5e-324, -0.25, -1e5 / 3,
                       float('inf')])


# -- spectra ------------------------------------------------------------------------------
def unit_of(rng, stype=None):
    stype = stype or rng.choice(['wavelength', 'wavelength', 'frequency', 'energy', 'angularfrequency',
                                 'wavenumber'])
    canon = rng.choice(rm.TYPES[stype])
    return stype, canon


def spell(rng, canon):
    """any accepted spelling of a unit"""
    name = rng.choice(rm.UNIT_NAMES[canon])
    return name


def grid(rng, stype, canon, rows, lo_nm=None, hi_nm=None):
    """increasing values in the given unit that cover some optical range"""
    lo_nm = lo_nm or rng.uniform(180, 600)
    hi_nm = hi_nm or lo_nm * rng.uniform(1.3, 6)
    ends = sorted(rm.from_metre(v * 1e-9, stype, canon) for v in (lo_nm, hi_nm))
    steps = sorted(rng.random() for _ in range(rows - 2))
    raw = [0.0] + [0.02 + 0.96 * s for s in steps] + [1.0]
    if rows == 1:
        raw = [0.5]
    out = []
    for s in raw:
        value = ends[0] + (ends[1] - ends[0]) * s
        value = float('%.7g' % value)
        if not out or value > out[-1] * (1 + 1e-6):
            out.append(value)
    return out


def table(rng, what, stype, canon, rows, **kw):
    cols = 3 if what in ('nk', 'eps', 'n_alpha') else 2
    xs = grid(rng, stype, canon, rows, **kw)
    out = []
    gain = what in ('nk', 'eps', 'k') and rng.random() < 0.06       # an amplifying medium
    for x in xs:
        row = [x]
        if what in ('k', 'eps_k'):
            row.append(round(rng.uniform(0, 4), 5))
        elif what in ('eps', 'eps_r'):
            row.append(round(rng.uniform(-6, 8), 5))
        else:
            row.append(round(rng.uniform(0.2, 4), 5))
        if cols == 3:
            if what == 'n_alpha':
                row.append(round(rng.uniform(0, 5e5), 2))
            else:
                row.append(round(rng.uniform(0.001, 3), 5))
        if rows > 100:                      # smooth, neighbours are close together
            row[1:] = [round(v, 5) for v in ([1 + 2 * len(out) / rows, 2 - len(out) / rows][:cols - 1])]
        if gain:
            row[-1] = -row[-1]
        out.append(row)
    return out


def model(rng, name=None, rii=False):
    names = sorted(rm.MODELS)
    if rii:
        names = sorted(rm.NUMBER)
    name = name or rng.choice(names)
    func, yields = rm.MODELS[name]
    lo = round(rng.uniform(0.25, 0.6), 4)
    hi = round(lo + rng.uniform(0.3, 2.5), 4)
    r = lambda a, b: round(rng.uniform(a, b), 6)
    pairs = rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 8])
    if name == 'Sellmeier':
        p = [r(0, 1)] + sum(([r(0.1, 1.5), r(0.01, 0.15)] for _ in range(pairs)), [])
    elif name == 'Sellmeier2':
        p = [r(0, 1)] + sum(([r(0.1, 1.5), r(0.001, 0.04)] for _ in range(pairs)), [])
    elif name == 'Polynomial':
        p = [r(2, 4)] + sum(([r(0.001, 0.05), float(rng.choice([-4, -2, 2]))] for _ in range(pairs)), [])
    elif name == 'RefractiveIndexInfo':
        p = [r(1.5, 3)]
        for _ in range(2):
            power = rng.choice([1, 2])      # no resonance inside the valid range
            p += [r(0.01, 0.5), float(rng.choice([0, 2])), r(0.01, 0.05 if power == 1 else 0.2), float(power)]
        p += sum(([r(0.0005, 0.01), float(rng.choice([-2, 2]))] for _ in range(rng.choice([0, 1, 2, 3, 4]))), [])
        if rng.random() < 0.3:
            p = p[:rng.choice([5, 9])]
    elif name == 'Cauchy':
        p = [r(1.2, 2.5)] + sum(([r(0.0005, 0.02), float(rng.choice([-4, -2, 2]))] for _ in range(pairs)), [])
    elif name == 'Gases':
        p = [r(0, 0.001)] + sum(([r(0.001, 0.06), r(60, 300)] for _ in range(pairs)), [])
    elif name == 'Herzberger':
        p = [r(1.5, 3), r(0.001, 0.05), r(0.0001, 0.002), r(-0.001, 0.001), r(-0.0001, 0.0001),
             r(-0.00001, 0.00001)]
    elif name == 'Retro':
        p = [r(0.1, 0.3), r(0.05, 0.2), r(0.005, 0.04), r(-0.01, 0.005)]
    elif name == 'Exotic':
        p = [r(2, 4), r(0.01, 0.1), r(0.01, 0.05), r(0.01, 0.1), r(0.1, 0.2), r(0.05, 0.3)]
    elif name == 'Drude':
        p = [r(3, 10), r(0.02, 1)]
    elif name == 'DrudeLorentz':
        p = [r(2, 10), r(0.1, 1), r(1, 5), r(0.1, 1)]
    elif name == 'TaucLorentz':
        e0 = r(3, 5)
        p = [r(10, 120), e0, r(0.5, 3), r(0.8, 2.2), r(1, 3)]
    if yields == 'eps':
        lo_e = round(rng.uniform(0.5, 2.4), 4)
        return {'kind': 'model', 'name': name, 'params': p,
                'range': [lo_e, round(lo_e + rng.uniform(0.5, 3), 4)], 'stype': 'energy',
                'unit': spell(rng, 'ev')}
    return {'kind': 'model', 'name': name, 'params': p, 'range': [lo, hi], 'stype': 'wavelength',
            'unit': spell(rng, 'um')}


HEADER = ['a free comment', ' two  words', 'Ünïcode μ 銀', '', '!', 'more text; here', ' trailing ', '"q"']


def spec(rng, fmt=None, rows=None, rii=False, simple=False, default_unit='nm'):
    """a data file of any supported kind"""
    fmt = fmt or rng.choice(['txt', 'csv', 'yml', 'yml'])
    if rii:
        fmt = 'yml'
    out = {'fmt': fmt, 'meta': {}, 'header': [], 'parts': [], 'style': {}}
    style = out['style']
    for key in rm.META_ALIAS:
        if rng.random() < 0.75:
            out['meta'][key] = text(rng, multiline=fmt == 'yml') if fmt == 'yml' else line(rng)
    if fmt == 'yml':
        for key in list(out['meta']):
            out['meta'][key] = out['meta'][key].replace('\r\n', '\n')
    if rng.random() < 0.4:
        out['header'] = [rng.choice(HEADER) for _ in range(rng.randint(1, 4))]
    if rng.random() < 0.15:
        style['crlf'] = True
    if rng.random() < 0.1:
        style['noeol'] = True
    if rng.random() < 0.15:
        style['down'] = True                # from high to low values
    if rng.random() < 0.12:
        style['gap'] = rng.choice([0, 1, 1, 2])
    rows = rows or rng.choice([2, 2, 3, 4, 5, 8, 13])
    if not rows == 1 and rng.random() < 0.05 and not simple:
        rows = 1
    if fmt != 'yml':
        stype, canon = unit_of(rng)
        what = rng.choice(['nk', 'nk', 'n', 'n_alpha' if not simple else 'nk', 'eps' if not simple else 'n'])
        part = {'kind': 'tab', 'what': what, 'stype': stype, 'unit': spell(rng, canon)}
        if rng.random() < 0.25:
            stype, canon = 'wavelength', default_unit
            part['stype'] = part['unit'] = None
            if rng.random() < 0.5:
                part['stype'] = 'wavelength'
        part['rows'] = table(rng, what, stype, canon, rows)
        out['parts'] = [part]
        style['untyped'] = rng.random() < 0.3
        style['pad'] = rng.choice(['', ' '])
        style['lower'] = rng.random() < 0.2
        style['sep'] = rng.choice(['\t', ' ', '   '])
        return out
    style['rii'] = rii or rng.random() < 0.4
    style['specs'] = rng.random() < 0.2
    style['range'] = rng.random() < 0.5
    combos = ['tab', 'model', 'model', 'model+k', 'n+k']
    combo = rng.choice(combos)
    if combo == 'tab':
        what = rng.choice(['nk', 'n', 'k', 'nk', 'eps', 'n_alpha'] if not rii else ['nk', 'nk', 'n', 'k'])
        stype, canon = unit_of(rng)
        part = {'kind': 'tab', 'what': what, 'stype': stype, 'unit': spell(rng, canon)}
        if rii or rng.random() < 0.2:
            stype, canon = 'wavelength', default_unit
            part['stype'] = part['unit'] = None
        part['rows'] = table(rng, what, stype, canon, rows)
        out['parts'] = [part]
    elif combo == 'model':
        part = model(rng, rii=rii)
        if rii:
            part['stype'] = part['unit'] = None
        out['parts'] = [part]
    elif combo == 'model+k':
        part = model(rng, name=rng.choice(sorted(rm.NUMBER)))
        lo, hi = part['range'][0] * 1000, part['range'][1] * 1000
        stype, canon = unit_of(rng)
        if rii:
            part['stype'] = part['unit'] = None
            stype, canon = 'wavelength', default_unit
        kpart = {'kind': 'tab', 'what': 'k', 'stype': None if rii else stype,
                 'unit': None if rii else spell(rng, canon)}
        kpart['rows'] = table(rng, 'k', stype, canon, max(rows, 2), lo_nm=lo * rng.uniform(0.8, 1.1),
                              hi_nm=hi * rng.uniform(0.9, 1.2))
        out['parts'] = [part, kpart]
    else:
        stype, canon = unit_of(rng)
        if rii:
            stype, canon = 'wavelength', default_unit
        lo = rng.uniform(200, 500)
        hi = lo * rng.uniform(2, 4)
        shared = rng.random() < 0.35
        if shared and not rii and rng.random() < 0.5:
            # the same numbers in another unit: the ranges still overlap
            xs = sorted(float('%.5g' % v) for v in [30.0, 90.0, rng.uniform(1e2, 1e3), rng.uniform(1e3, 1e4), 2e5, 3e5])
            pair = rng.choice([('nm', 'um'), ('um', 'nm'), ('a', 'nm'), ('nm', 'a'), ('nm', 'nm')])
            for what, canon in zip(rng.sample(['n', 'k'], 2), pair):
                rows = table(rng, what, 'wavelength', canon, len(xs))
                rows = [[x] + row[1:] for x, row in zip(xs, rows + rows)]
                out['parts'].append({'kind': 'tab', 'what': what, 'stype': 'wavelength', 'unit': spell(rng, canon),
                                     'rows': rows})
            return out
        near = shared and rng.random() < 0.5
        if near and not rii and rng.random() < 0.6:
            stype, canon = 'wavelength', 'm'
        for what in ('n', 'k'):
            name = spell(rng, canon)
            part = {'kind': 'tab', 'what': what, 'stype': None if rii else stype,
                    'unit': None if rii else name}
            part['rows'] = table(rng, what, stype, canon, max(2, rows + rng.randint(-1, 1)),
                                 lo_nm=lo * rng.uniform(0.9, 1.1), hi_nm=hi * rng.uniform(0.9, 1.1))
            if shared and what == 'k':
                part['rows'] = [[row[0], round(rng.uniform(0, 4), 5)] for row in out['parts'][0]['rows']]
                if near:
                    # almost the grid of the other table: still a table of its own
                    shift = rng.choice([1e-7, 1e-3, 1e-2, 0.05]) * rng.choice([-1, 1])
                    for row in part['rows']:
                        row[0] = float('%.8g' % (row[0] * (1 + shift)))
            out['parts'].append(part)
            if not rii and not shared and rng.random() < 0.3:
                stype, canon = unit_of(rng)
    if any(len(p.get('rows', [0, 0])) < 1 for p in out['parts']):
        raise ValueError('empty table')
    return out


def same_size(rng, spec):
    """the same file with other digits: length and time stamp are unchanged"""
    new = copy.deepcopy(spec)
    for part in new['parts']:
        key = 'rows' if part['kind'] == 'tab' else None
        if key:
            for row in part['rows']:
                text = rm._num(row[-1])
                for i in range(20):
                    at = rng.randrange(len(text))
                    if text[at].isdigit() and text[at] != '0':
                        cand = float(text[:at] + str(1 + int(text[at]) % 9) + text[at + 1:])
                        if len(rm._num(cand)) == len(text):
                            row[-1] = cand
                            break
    return new


def points(rng, meaning, count):
    """wavelengths (m) safely inside the valid range, away from the edges"""
    lower, upper = meaning.range_m()
    if upper == lower:
        return []
    if math.isinf(upper) or lower == 0.0:
        lower, upper = 3e-7, 9e-7
    out = []
    for _ in range(count):
        t = rng.uniform(0.02, 0.98)
        out.append(lower * (upper / lower) ** t)
    return out


def outside(rng, meaning):
    lower, upper = meaning.range_m()
    choice = []
    if lower > 0:
        choice.append(lower * rng.uniform(0.5, 0.97))
    if not math.isinf(upper):
        choice.append(upper * rng.uniform(1.03, 2))
    return rng.choice(choice) if choice else None


def reference(rng):
    """a reference spectrum for the configuration"""
    stype, canon = unit_of(rng)
    if rng.random() < 0.6:
        stype, canon = 'wavelength', 'nm'
    value = float('%.6g' % rm.from_metre(rng.uniform(300, 900) * 1e-9, stype, canon))
    if not isinstance(value, float):
        value = float(value)
    return {'Value': value, 'SpectrumType': stype, 'Unit': spell(rng, canon)}


FILE_NAMES = ['a', 'B2', 'Ag_film', 'x y', 'müller', 'NA', '007', 'name.with.dots', 'zz', 'n,k', "it's", '銀',
              'data', 'null', '1e5', 'long' * 10, 'A', '-dash', '#num', 'p%q', '.dot', '_under', 'x[1]', 'st*r', 'q?', '~home', '$HOME',
              'end.', 'example_data', 'n k']


def file_name(rng, used, ext):
    for _ in range(50):
        name = rng.choice(FILE_NAMES)
        if rng.random() < 0.3:
            name += str(rng.randint(0, 99))
        full = name + '.' + ext
        if full not in used:
            return full
    return 'f%d.%s' % (rng.randrange(10**9), ext)


IGNORED = ['notes.md', 'README', 'old.txt.bak', 'pic.png', 'data.dat', '.hidden', 'x.yaml', 'up.TXT', 'b.json',
           'c.txt~', 'd.yml.tmp', 'e.csv.3f2a.tmp']


# -- catalogue tables ---------------------------------------------------------------------
COLUMNS = ['Alias', 'Name', 'FullName', 'Author', 'Comment', 'Reference', 'SpectrumType', 'Unit',
           'SpectrumLowerBound', 'SpectrumUpperBound', 'N_Reference', 'K_Reference', 'Path', 'Module']
NUMERIC = ['SpectrumLowerBound', 'SpectrumUpperBound', 'N_Reference', 'K_Reference']


def catalogue_rows(rng, count, aliases=True):
    rows = []
    for i in range(count):
        row = {}
        for col in COLUMNS:
            if col in NUMERIC:
                row[col] = double(rng)
                if rng.random() < (0.25 if col[1] == '_' else 0.04):
                    row[col] = None         # missing
            elif col == 'Alias':
                row[col] = 'alias%d %s' % (i, word(rng)) if aliases and rng.random() < 0.3 else ''
            elif col == 'Module':
                row[col] = rng.choice(['UserData', 'RefractiveIndexInfo', 'Filmetrics'])
            elif col == 'SpectrumType':
                row[col] = 'wavelength'
            elif col == 'Unit':
                row[col] = rng.choice(['nanometer', 'micrometer'])
            else:
                row[col] = text(rng, multiline=True)
        rows.append(row)
    return rows


def config(root, rng=None, modules=None, ref=None, name='catalogue.csv'):
    return {'Path': root, 'File': name, 'Interactive': False, 'WarnMissingPackages': False,
            'Modules': modules or {'UserData': True},
            'ReferenceSpectrum': ref or {'Value': 632.8, 'SpectrumType': 'wavelength', 'Unit': 'nanometer'}}
