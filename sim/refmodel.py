"""Independent reference: what a data file means.

Nothing here imports dispersion.  A *spec* is a JSON description of a data file:
 {"fmt": "txt|csv|nk|yml", "meta": {...}, "header": [...],
  "parts": [{"kind": "tab", "what": "nk|n|k|eps|eps_r|eps_k|n_alpha", "rows": [[...]],
             "stype":..., "unit":...} |
            {"kind": "model", "name":..., "params": [...], "range": [a, b],
             "stype":..., "unit":...}],
  "style": {...}}
"stype"/"unit" may be None: the reader then uses the defaults of the caller.
"""
import cmath
import json
import math

C = 299792458.0
H = 6.62607015e-34
E = 1.602176634e-19

UNIT_NAMES = {'m': ['m', 'meter', 'metre'], 'cm': ['cm', 'centimeter', 'centimetre'],
              'um': ['um', 'micrometer', 'micrometre'], 'nm': ['nm', 'nanometer', 'nanometre'],
              'a': ['angstrom', 'a'], 'hz': ['hz', 'hertz'], 'ev': ['ev', 'electronvolt'],
              '1/s': ['1/s', 'rad/s'], '1/cm': ['1/cm']}
CANON = {name: canon for canon, names in UNIT_NAMES.items() for name in names}
TYPES = {'wavelength': ['m', 'cm', 'um', 'nm', 'a'], 'frequency': ['hz'], 'energy': ['ev'],
         'angularfrequency': ['1/s'], 'wavenumber': ['1/cm']}
SCALE = {'m': 1.0, 'cm': 1e-2, 'um': 1e-6, 'nm': 1e-9, 'a': 1e-10}


def to_metre(value, stype, unit):
    stype, unit = stype.lower(), CANON[unit.lower()]
    if stype == 'wavelength':
        return value * SCALE[unit]
    if value == 0.0:
        return math.inf
    if math.isinf(value):
        return 0.0
    if stype == 'frequency':
        return C / value
    if stype == 'energy':
        return H * C / (E * value)
    if stype == 'angularfrequency':
        return 2 * math.pi * C / value
    if stype == 'wavenumber':
        return 2 * math.pi / (value * 100.0)
    raise KeyError(stype)


def from_metre(lam, stype, unit):
    stype, unit = stype.lower(), CANON[unit.lower()]
    if stype == 'wavelength':
        return lam / SCALE[unit]
    if stype == 'frequency':
        return C / lam
    if stype == 'energy':
        return H * C / (E * lam)
    if stype == 'angularfrequency':
        return 2 * math.pi * C / lam
    if stype == 'wavenumber':
        return 2 * math.pi / (lam * 100.0)
    raise KeyError(stype)


# -- models ------------------------------------------------------------------------
FORMULA = {1: 'Sellmeier', 2: 'Sellmeier2', 3: 'Polynomial', 4: 'RefractiveIndexInfo',
           5: 'Cauchy', 6: 'Gases', 7: 'Herzberger', 8: 'Retro', 9: 'Exotic'}
NUMBER = {name: num for num, name in FORMULA.items()}


def _sellmeier(p, w):
    s = p[0]
    for a, b in zip(p[1::2], p[2::2]):
        s += a * w * w / (w * w - b * b)
    return math.sqrt(1 + s)


def _sellmeier2(p, w):
    s = p[0]
    for a, b in zip(p[1::2], p[2::2]):
        s += a * w * w / (w * w - b)
    return math.sqrt(1 + s)


def _polynomial(p, w):
    s = p[0]
    for a, b in zip(p[1::2], p[2::2]):
        s += a * w ** b
    return math.sqrt(s)


def _rii(p, w):
    s = p[0]
    for i in (1, 5):
        if i < len(p):
            s += p[i] * w ** p[i + 1] / (w * w - p[i + 2] ** p[i + 3])
    for a, b in zip(p[9::2], p[10::2]):
        s += a * w ** b
    return math.sqrt(s)


def _cauchy(p, w):
    s = p[0]
    for a, b in zip(p[1::2], p[2::2]):
        s += a * w ** b
    return s


def _gases(p, w):
    s = 1 + p[0]
    for a, b in zip(p[1::2], p[2::2]):
        s += a / (b - w ** -2)
    return s


def _herzberger(p, w):
    lt = 1.0 / (w * w - 0.028)
    return p[0] + p[1] * lt + p[2] * lt * lt + p[3] * w ** 2 + p[4] * w ** 4 + p[5] * w ** 6


def _retro(p, w):
    x = p[0] + p[1] * w * w / (w * w - p[2]) + p[3] * w * w
    return math.sqrt((1 + 2 * x) / (1 - x))


def _exotic(p, w):
    s = p[0] + p[1] / (w * w - p[2]) + p[3] * (w - p[4]) / ((w - p[4]) ** 2 + p[5])
    return math.sqrt(s)


def _drude(p, en):
    return 1 - p[0] ** 2 / (en * en + 1j * p[1] * en)


def _drude_lorentz(p, en):
    return 1 + p[1] * p[0] ** 2 / (p[2] ** 2 - en * en - 1j * p[3] * en)


def _tauc_lorentz(p, en):
    """closed form of Jellison and Modine (1996, with the published erratum)"""
    a, e0, c, eg, einf = p
    imag = 0.0
    if en > eg:
        imag = a * e0 * c * (en - eg) ** 2 / ((en * en - e0 * e0) ** 2 + c * c * en * en) / en
    aln = (eg ** 2 - e0 ** 2) * en ** 2 + eg ** 2 * c ** 2 - e0 ** 2 * (e0 ** 2 + 3 * eg ** 2)
    aat = (en ** 2 - e0 ** 2) * (e0 ** 2 + eg ** 2) + eg ** 2 * c ** 2
    al = math.sqrt(4 * e0 ** 2 - c ** 2)
    ga2 = e0 ** 2 - c ** 2 / 2
    z4 = (en ** 2 - ga2) ** 2 + al ** 2 * c ** 2 / 4
    real = einf
    real += a * c * aln / (2 * math.pi * z4 * al * e0) * math.log(
        (e0 ** 2 + eg ** 2 + al * eg) / (e0 ** 2 + eg ** 2 - al * eg))
    real -= a * aat / (math.pi * z4 * e0) * (
        math.pi - math.atan((2 * eg + al) / c) + math.atan((al - 2 * eg) / c))
    real += 4 * a * e0 * eg * (en ** 2 - ga2) / (math.pi * z4 * al) * (
        math.atan((al + 2 * eg) / c) + math.atan((al - 2 * eg) / c))
    real -= a * e0 * c * (en ** 2 + eg ** 2) / (math.pi * z4 * en) * math.log(abs(en - eg) / (en + eg))
    real += 2 * a * e0 * c * eg / (math.pi * z4) * math.log(
        abs(en - eg) * (en + eg) / math.sqrt((e0 ** 2 - eg ** 2) ** 2 + eg ** 2 * c ** 2))
    return real + 1j * imag


MODELS = {'Sellmeier': (_sellmeier, 'n'), 'Sellmeier2': (_sellmeier2, 'n'),
          'Polynomial': (_polynomial, 'n'), 'RefractiveIndexInfo': (_rii, 'n'),
          'Cauchy': (_cauchy, 'n'), 'Gases': (_gases, 'n'), 'Herzberger': (_herzberger, 'n'),
          'Retro': (_retro, 'n'), 'Exotic': (_exotic, 'n'),
          'Drude': (_drude, 'eps'), 'DrudeLorentz': (_drude_lorentz, 'eps'),
          'TaucLorentz': (_tauc_lorentz, 'eps')}


# -- meaning of a spec -----------------------------------------------------------------
def _lin(rows, x, col):
    lo, hi = 0, len(rows) - 1
    while hi - lo > 1:
        mid = (lo + hi) // 2
        if rows[mid][0] <= x:
            lo = mid
        else:
            hi = mid
    x0, x1 = rows[lo][0], rows[hi][0]
    t = (x - x0) / (x1 - x0)
    return rows[lo][col] * (1 - t) + rows[hi][col] * t


class Meaning(object):
    """evaluates a spec the way the documentation of the file formats says"""

    def __init__(self, spec, stype='wavelength', unit='nm'):
        self.spec = spec
        self.parts = []
        for part in spec['parts']:
            self.parts.append((part, (part.get('stype') or stype).lower(),
                               CANON[(part.get('unit') or unit).lower()]))

    def range_m(self):
        """(lower, upper) wavelength in metre that all parts cover"""
        lower, upper = 0.0, math.inf
        for part, stype, unit in self.parts:
            if part['kind'] == 'tab':
                edge = (part['rows'][0][0], part['rows'][-1][0])
            else:
                edge = (part['range'][0], part['range'][1])
            ends = sorted(to_metre(v, stype, unit) for v in edge)
            lower, upper = max(lower, ends[0]), min(upper, ends[1])
        return lower, upper

    def covers(self, lam):
        lower, upper = self.range_m()
        return lower <= lam <= upper

    def _complex(self, lam):
        """('nk' or 'eps', complex value)"""
        name, real, imag = 'nk', 0.0, 0.0
        for part, stype, unit in self.parts:
            x = from_metre(lam, stype, unit)
            if part['kind'] == 'model':
                func, yields = MODELS[part['name']]
                value = func(part['params'], x)
                if yields == 'eps':
                    name, real, imag = 'eps', complex(value).real, complex(value).imag
                else:
                    real = value
                continue
            rows, what = part['rows'], part['what']
            if len(rows) == 1:
                get = lambda col: rows[0][col]
            else:
                get = lambda col: _lin(rows, x, col)
            if what in ('n', 'nk', 'n_alpha'):
                real = get(1)
            if what == 'nk':
                imag = get(2)
            elif what == 'n_alpha':
                table = [[r[0], r[2] * to_metre(r[0], stype, unit) * 100.0 / (4 * math.pi)] for r in rows]
                imag = table[0][1] if len(rows) == 1 else _lin(table, x, 1)
            elif what == 'k':
                imag = get(1)
            elif what == 'eps':
                name, real, imag = 'eps', get(1), get(2)
            elif what == 'eps_r':
                name, real = 'eps', get(1)
            elif what == 'eps_k':
                name, imag = 'eps', get(1)
        return name, complex(real, imag)

    def nk(self, lam):
        name, value = self._complex(lam)
        return cmath.sqrt(value) if name == 'eps' else value

    def eps(self, lam):
        name, value = self._complex(lam)
        return value if name == 'eps' else value * value


def close(got, want, tol=2e-6, slack=0.0):
    """got, want complex; relative to the size of the value"""
    got, want = complex(got), complex(want)
    if cmath.isnan(got):
        return False
    return abs(got - want) <= tol * (1.0 + abs(want)) + slack


# -- writing a spec the way a user would -------------------------------------------------
def _num(value):
    return repr(float(value)) if value != int(value) or abs(value) > 1e6 else \
        ('%d' % value if abs(value) < 1e5 and int(value) % 2 else repr(float(value)))


META_ALIAS = {'Reference': 'REFERENCES', 'Author': 'AUTHOR', 'FullName': 'FULLNAME',
              'Name': 'NAME', 'Comment': 'COMMENTS'}


def yaml_text(text):
    """a YAML scalar for any text"""
    return json.dumps(text, ensure_ascii=False).replace('\x7f', '\\x7f')


def render(spec):
    """bytes of the data file"""
    style = spec.get('style') or {}
    lines = ['#' + h if spec['fmt'] != 'nk' else ';' + h for h in spec.get('header', [])]
    if spec['fmt'] == 'yml':
        if lines:
            lines.append('')
        lines += _yml(spec, style)
    else:
        mark = ';' if spec['fmt'] == 'nk' else '#'
        part = spec['parts'][0]
        pad = style.get('pad', ' ')
        for key, alias in META_ALIAS.items():
            if key in spec['meta']:
                name = alias if not style.get('lower') else alias.capitalize()
                lines.append('%s%s%s: %s' % (mark, pad, name, spec['meta'][key]))
        if part.get('stype'):
            lines.append('%s%sSPECTRUMTYPE: %s' % (mark, pad, part['stype']))
        if part.get('unit'):
            lines.append('%s%sUNIT: %s' % (mark, pad, part['unit']))
        if not style.get('untyped') or part['what'] not in ('n', 'nk'):
            lines.append('%s%sDATATYPE: tabulated %s' % (mark, pad, part['what']))
        sep = {'txt': style.get('sep', '\t'), 'csv': ',', 'nk': style.get('sep', '\t')}[spec['fmt']]
        for i, row in enumerate(file_rows(spec, part)):
            if i == style.get('gap'):
                lines.append('')
            lines.append(sep.join(_num(v) for v in row))
    newline = '\r\n' if style.get('crlf') else '\n'
    text = newline.join(lines) + ('' if style.get('noeol') else newline)
    return text.encode('utf-8')


def file_rows(spec, part):
    """the rows of a table in the order in which the file has them"""
    return part['rows'][::-1] if (spec.get('style') or {}).get('down') else part['rows']


def _yml(spec, style):
    lines = []
    for key, alias in META_ALIAS.items():
        if key in spec['meta']:
            lines.append('%s: %s' % (alias, yaml_text(spec['meta'][key])))
    if style.get('specs'):
        lines += ['SPECS:', '  temperature: 25 C', '  n_absolute: true']
    lines.append('DATA:')
    for part in spec['parts']:
        rii = style.get('rii')
        if part['kind'] == 'model':
            kind = 'formula %d' % NUMBER[part['name']] if rii and part['name'] in NUMBER \
                else 'model %s' % part['name']
        else:
            kind = 'tabulated %s' % part['what']
        lines.append('  - %s: %s' % ('type' if rii else 'DataType', kind))
        if part.get('stype'):
            lines.append('    SpectrumType: %s' % part['stype'])
        if part.get('unit'):
            lines.append('    Unit: %s' % part['unit'])
        if part['kind'] == 'model':
            lines.append('    %s: %s %s' % ('wavelength_range' if rii and not style.get('range') else
                                            ('range' if rii else 'ValidRange'),
                                            repr(float(part['range'][0])), repr(float(part['range'][1]))))
            lines.append('    %s: %s' % ('coefficients' if rii else 'Parameters',
                                         ' '.join(repr(float(v)) for v in part['params'])))
        else:
            lines.append('    %s: |' % ('data' if rii else 'Data'))
            for i, row in enumerate(file_rows(spec, part)):
                if i and i == style.get('gap'):
                    lines.append('')
                lines.append('        ' + ' '.join(_num(v) for v in row))
    return lines
