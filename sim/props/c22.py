"""C22: an operation that fails leaves the objects it works on as they were"""
import sys

from .. import gen
from .common import *
from .c12 import canon, data_file, shared_material, first_diff, process_state, MIXES
from .c19 import Qgrid

BUDGET = {'quick': 400, 'thorough': 26000}
VARIANTS = {'quick': 7, 'thorough': 16}
SHRINK = ('steps',)
POINTS = [3.2e-7, 4.17e-7, 5.5e-7, 6.6e-7, 1.2e-6]
KINDS = ['extrapolate', 'extrapolate', 'extrapolate', 'lossless', 'nk', 'eps', 'sample', 'convert', 'convert', 'mix', 'mix',
         'alias', 'alias', 'fetch', 'table', 'save', 'reopen', 'rebuild', 'grid', 'user', 'keep', 'writer', 'write', 'write',
         'read', 'merge']
ENDS = [300.0, 380.0, 410.0, 415.0, 560.0, 650.0, 720.0, 1500.0]


def split_file(rng):
    """n and k from separate tables with different ranges"""
    ends = [(420, 640), (350, 720)]
    if rng.random() < 0.3:
        ends.reverse()
    spec = {'fmt': 'yml', 'meta': {k: gen.line(rng) for k in rm.META_ALIAS}, 'header': ['a comment'], 'style': {}, 'parts': []}
    for what, (low, high) in zip('nk', ends):
        spec['parts'].append({'kind': 'tab', 'what': what, 'stype': 'wavelength', 'unit': 'nanometer',
                              'rows': gen.table(rng, what, 'wavelength', 'nm', rng.choice([3, 5]), lo_nm=low, hi_nm=high)})
    return spec


def material(rng):
    if rng.random() < 0.3:
        return {'kind': 'file', 'spec': split_file(rng)}
    return shared_material(rng, rng.choice(['array', 'array', 'model', 'fixed', 'file']))


def step(rng, plan, i):
    kind = rng.choice(KINDS)
    stype, canon_unit = gen.unit_of(rng)
    out = {'id': 's%d' % i, 'kind': kind, 'mat': rng.randrange(len(plan['mats'])), 'mat2': rng.randrange(len(plan['mats'])),
           'spectrum': rng.randrange(len(plan['spectra'])), 'bad': rng.random() < 0.25, 'row': rng.randrange(9)}
    if kind == 'extrapolate':
        out.update(to=sorted(rng.sample(ENDS, rng.choice([1, 1, 2, 2, 3]))), order=rng.choice([1, 2, 3, 7]), own=rng.random() < 0.3)
    elif kind == 'convert':
        out.update(stype=stype, unit=rng.choice(rm.UNIT_NAMES[canon_unit]))
    elif kind in ('nk', 'eps'):
        out.update(stype=stype, unit=rng.choice(rm.UNIT_NAMES[canon_unit]),
                   at=[rm.from_metre(v * 1e-9, stype, canon_unit) for v in sorted(rng.uniform(330, 800) for _ in range(3))])
    elif kind == 'mix':
        out.update(how=rng.choice(MIXES), frac=round(rng.uniform(0.05, 0.95), 2))
    elif kind == 'alias':
        out.update(alias=rng.choice(['alias0', 'alias1', 'fresh%d' % i, 'fresh%d' % i]), select=rng.random() < 0.3)
    elif kind == 'fetch':
        out.update(alias=rng.choice([None, 'alias0', 'alias1', 'nobody']))
    elif kind == 'table':
        out.update(rows=gen.catalogue_rows(rng, rng.choice([1, 3])))
    elif kind == 'rebuild':
        out.update(what=rng.choice(['All', 'UserData', 'RefractiveIndexInfo']))
    elif kind == 'grid':
        out.update(view=rng.random() < 0.3)
    elif kind == 'user':
        out.update(text=gen.line(rng))
    elif kind in ('writer', 'write'):
        out.update(slot=rng.randrange(2), fmt=rng.choice(['yml', 'yml', 'txt', 'csv', 'nk', 'dat']))
    elif kind == 'merge':
        out.update(rows=gen.catalogue_rows(rng, 1))
    return out


def generate(rng, tier):
    plan = {'mats': [material(rng) for _ in range(rng.choice([1, 2, 2]))], 'spectra': [], 'files': {}, 'calls': True,
            'knobs': random_knobs(rng, small=False)}
    for _ in range(2):
        stype, unit = gen.unit_of(rng)
        lams = [rng.uniform(425, 600)] if rng.random() < 0.2 else sorted(rng.uniform(425, 630) for _ in range(rng.choice([2, 4])))
        plan['spectra'].append({'stype': stype, 'unit': rng.choice(rm.UNIT_NAMES[unit]),
                                'values': [rm.from_metre(v * 1e-9, stype, unit) for v in lams]})
    for i in range(2):
        spec = data_file(rng)
        plan['files']['m%d.%s' % (i, spec['fmt'])] = spec
    plan['steps'] = [step(rng, plan, i) for i in range(rng.randint(3, 9))]
    if not any(s['kind'] == 'write' for s in plan['steps']) and rng.random() < 0.3:
        fmt = rng.choice(['yml', 'txt', 'csv'])
        extra = [dict(step(rng, plan, 90 + j), kind=k, slot=0, fmt=fmt, mat=0) for j, k in enumerate(['writer', 'write', 'write'])]
        plan['steps'] = extra + plan['steps'][:5]
    return plan


def perturb(plan, res, rng):
    plan = clone(plan)
    ops = {'a.' + s['id'] for s in plan['steps']}
    style = rng.random()
    plan['faults'] = place_faults(res.trace, rng, ops=ops, kinds=('call',) if style < 0.6 else None,
                                  errs=['mem', 'intr', 'eio', 'enospc', 'eacces', 'emfile'], count=rng.choice([1, 1, 2]))
    for flt in plan['faults']:
        flt.pop('sticky', None)
    return plan if plan['faults'] else None


class Side(object):
    """one set of objects: a is disturbed, b is the undisturbed twin"""

    def __init__(self, run, plan, tag):
        import numpy as np
        self.run, self.plan, self.tag, self.np = run, plan, tag, np
        world = run.world
        self.base = tag + '/'
        for name, spec in plan['files'].items():
            world.put(self.base + 'db/UserData/' + name, rm.render(spec))
        sut = self.sut = run.load()
        self.mats = []
        for i, item in enumerate(plan['mats']):
            if item['kind'] == 'file':
                world.put(self.base + 'src/%d.%s' % (i, item['spec']['fmt']), rm.render(item['spec']))
            self.mats.append(run.must('%s.m%d' % (tag, i), lambda: self.material(item, i), 'making a material', proc=tag))
        self.spectra = [sut.Spectrum(np.array(s['values']) if len(s['values']) > 1 else s['values'][0],
                                     spectrum_type=s['stype'], unit=s['unit']) for s in plan['spectra']]
        self.config = gen.config(world.path(self.base + 'db'), name='c.csv')
        self.config['Interactive'] = True
        self.config['Modules'] = {'UserData': True}
        cat = run.must(tag + '.cat', lambda: sut.Catalogue(self.config, rebuild='All'), 'building a catalogue', proc=tag)
        cat.set_database(cat.get_database().sort_values('Path', ignore_index=True))
        for i in range(len(plan['files'])):
            run.must('%s.a%d' % (tag, i), lambda: cat.register_alias(i, 'alias%d' % i), 'registering an alias', proc=tag)
        run.must(tag + '.save', cat.save_to_file, 'saving', proc=tag)
        self.cat, self.grid, self.medium = cat, None, None
        self.writers = {}
        name = sorted(plan['files'])[0]
        self.reader = sut.Reader(world.path(self.base + 'db/UserData/' + name))

    def material(self, item, i):
        sut, np = self.sut, self.np
        kind = item['kind']
        if kind == 'array':
            return sut.Material(**{'tabulated_' + item['what']: np.array(item['table'][::-1] if item.get('down') else item['table']), 'spectrum_type': item['stype'],
                                   'unit': item['unit']})
        if kind == 'model':
            mod = item['model']
            return sut.Material(model_kw={'name': mod['name'], 'spectrum_type': mod['stype'], 'unit': mod['unit'],
                                          'valid_range': np.array(mod['range']), 'parameters': np.array(mod['params'])},
                                spectrum_type=mod['stype'], unit=mod['unit'])
        if kind == 'fixed':
            value = complex(*item['value'])
            return sut.Material(**{item['arg']: value if item['arg'] in ('fixed_nk', 'fixed_eps') else value.real})
        return sut.Material(file_path=self.run.world.path(self.base + 'src/%d.%s' % (i, item['spec']['fmt'])))

    def view(self, mat):
        out = [canon(getattr(mat, 'meta_data', None)), canon(mat.defaults), canon(mat.get_maximum_valid_range())]
        for point in POINTS:
            for ask in (mat.get_nk_data, mat.get_permittivity)[:1 if point != 5.5e-7 else 2]:
                try:
                    out.append(canon(ask(point)))
                except ValueError:
                    out.append('outside')
        try:
            out.append(canon(mat.prepare_file_dict()))
        except AttributeError:          # extrapolated data and media
            out.append('not writable')
        return out

    def state(self):
        """everything observable of the objects and of the stored files"""
        world = self.run.world
        out = [self.view(mat) for mat in self.mats] + [canon(s) for s in self.spectra]
        out.append(self.view(self.medium) if self.medium is not None else None)
        out.append(canon(rows_of(self.cat.get_database())))
        out.append(canon({k: v for k, v in self.cat.config.items() if k != 'Path'}))
        out.append(canon({k: v for k, v in self.config.items() if k != 'Path'}))
        out.append(canon(rows_of(self.grid.frame)) if self.grid is not None else None)
        for rel in ['db/c.csv', 'out0.yml', 'out0.txt', 'out0.csv', 'out0.nk', 'out1.yml', 'out1.txt', 'out1.csv', 'out1.nk'] + \
                ['db/UserData/' + n for n in sorted(self.plan['files'])]:
            data = world.get(self.base + rel)
            out.append(None if data is None else data.decode('latin-1'))
        return out

    def operation(self, s):
        """-> (what to call, what to keep of its result)"""
        sut, np, world = self.sut, self.np, self.run.world
        mat, mat2, spectrum, cat = self.mats[s['mat']], self.mats[s['mat2']], self.spectra[s['spectrum']], self.cat
        kind, bad = s['kind'], s['bad']
        if kind == 'extrapolate':
            to = sut.Spectrum(np.array(s['to']) if len(s['to']) > 1 else s['to'][0], spectrum_type='wavelength', unit='nm')
            if s['own']:
                to = spectrum
            return lambda: mat.extrapolate(to, spline_order=s['order'])
        if kind == 'lossless':
            return mat.remove_absorption
        if kind in ('nk', 'eps'):
            ask = mat.get_nk_data if kind == 'nk' else mat.get_permittivity
            values = np.array(s['at'])
            return lambda: ask(values, spectrum_type=s['stype'], unit='furlong' if bad else s['unit'])
        if kind == 'sample':
            return mat.get_sample_spectrum
        if kind == 'convert':
            return lambda: spectrum.convert_to(s['stype'], 'furlong' if bad else s['unit'], in_place=True)
        if kind == 'mix':
            def mix():
                medium = getattr(sut.modules['dispersion.material'], s['how'])(spectrum, mat, mat2, 1.5 if bad else s['frac'])
                self.medium = medium
            return mix
        if kind == 'alias':
            def alias():
                row = 77 if bad else s['row'] % max(1, cat.get_database().shape[0])
                if s['select']:
                    row = cat.get_database().iloc[[row] if not bad else []]
                cat.register_alias(row, s['alias'])
            return alias
        if kind == 'fetch':
            def fetch():
                got = cat.get_material(s['alias'] or s['row'])
                return self.view(got)
            return fetch
        if kind == 'table':
            return lambda: cat.set_database(frame_of(s['rows']))
        if kind == 'merge':
            def merge():
                import pandas as pd
                cat.set_database(pd.concat([cat.get_database(), frame_of(s['rows'])], ignore_index=True))
            return merge
        if kind == 'save':
            return cat.save_to_file
        if kind in ('reopen', 'rebuild'):
            def again():
                config = dict(self.config, File=3) if bad else self.config
                new = sut.Catalogue(config, rebuild=s['what']) if kind == 'rebuild' else sut.Catalogue(config)
                if kind == 'rebuild':           # the order of the directory is nobody's promise
                    new.set_database(new.get_database().sort_values(['Module', 'Path'], ignore_index=True))
                self.cat, self.grid = new, None
            return again
        if kind == 'grid':
            def grid():
                self.grid = cat.view_interactive() if s['view'] else cat.edit_interactive()
            return grid
        if kind == 'user':
            def user():
                if self.grid is not None and self.grid.frame.shape[0]:
                    at = s['row'] % self.grid.frame.shape[0]
                    self.grid.frame.iloc[at, list(self.grid.frame.columns).index('Comment')] = s['text']
            return user
        if kind == 'keep':
            return cat.save_interactive
        if kind == 'writer':
            def writer():
                self.writers[s['slot']] = sut.Writer(world.path(self.base + 'out%d.%s' % (s['slot'], s['fmt'])), mat)
            return writer
        if kind == 'write':
            def write():
                if s['slot'] in self.writers:
                    self.writers[s['slot']].write_file()
            return write

        def read():
            got = self.reader.read_file()
            return [canon(got['MetaData']), canon(got['Datasets'])]
        return read

    def apply(self, s, again=''):
        out = self.run.call('%s.%s%s' % (self.tag, s['id'], again), self.operation(s), proc=self.tag)
        return out, canon(out.value) if out.ok else type(out.exc).__name__


def execute(run, plan):
    import numpy
    qgrid = Qgrid()
    before = sys.modules.get('qgrid', run)
    sys.modules['qgrid'] = qgrid
    try:
        play(run, plan)
    finally:
        if before is run:
            del sys.modules['qgrid']
        else:
            sys.modules['qgrid'] = before


def play(run, plan):
    a, b = Side(run, plan, 'a'), Side(run, plan, 'b')
    settings = process_state()
    now = a.state()
    diff(run, now, b.state(), 'different', 'the same session twice')
    for s in plan['steps']:
        before = now
        out, got = a.apply(s)
        now = after = a.state()
        what = s['kind'] + (' (%s)' % s['how'] if 'how' in s else '')
        run.state(s['kind'], plan['mats'][s['mat']]['kind'], out.kind, bool(out.op.fired), s['bad'], after == before)
        if out.op.fired and not out.ok:
            run.world.probe('operation made to fail')
            if after == before:
                twin, want = b.apply(s)
                run.world.probe('repeated')
                out, got = a.apply(s, '.again')
                now = a.state()
                compare(run, out, got, twin, want, what + ', repeated after a failure,')
            else:
                b.apply(s)
                diff(run, after, b.state(), 'half-done', '%s that %s left neither the old nor the new state' % (what, out.describe()))
        else:
            if out.op.fired:
                run.check(all(f['err'] != 'intr' for f in out.op.fired), 'swallowed', 'Ctrl-C during %s was swallowed' % what)
            if not out.ok:
                diff(run, after, before, 'refused-but-changed', '%s %s, but changed something' % (what, out.describe()))
                run.world.probe('refused')
            twin, want = b.apply(s)
            compare(run, out, got, twin, want, what)
        diff(run, now, b.state(), 'different', 'after %s the objects differ from those of an undisturbed session' % what)
    for x, y in zip(settings, process_state()):
        run.check(x == y, 'process-state', lambda: 'a setting of the process changed from %s to %s' % first_diff(x, y))


def compare(run, out, got, twin, want, what):
    run.check(out.kind == twin.kind and got == want, 'result', lambda: '%s %s with %s, an undisturbed session: %s with %s' % (
        what, out.describe(), str(got)[:200], twin.describe(), str(want)[:200]))


def diff(run, got, want, code, text):
    for x, y in zip(got, want):
        run.check(x == y, code, lambda: '%s: %s instead of %s' % ((text,) + first_diff(x, y)))
