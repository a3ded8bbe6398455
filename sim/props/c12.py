"""C12: reading and evaluating is free of side effects, also across threads"""
import decimal
import locale
import math
import os
import random
import signal
import sys
import gc
import warnings

from .. import gen
from .common import *

BUDGET = {'quick': 720, 'thorough': 20000}
VARIANTS = {'quick': 9, 'thorough': 16}
SHRINK = ('tasks',)
SHARING = ('prepare', 'writer', 'table', 'equal', 'contains')
WARN = warnings.showwarning
MIXES = ('Simple', 'MaxwellGarnett', 'Bruggeman')


def shared_material(rng, kind=None):
    kind = kind or rng.choice(['array', 'array', 'model', 'model', 'fixed', 'file', 'extended', 'medium'])
    out = {'kind': kind}
    if kind in ('array', 'extended'):
        what = rng.choice(['nk', 'n', 'eps', 'n_alpha'] if kind == 'array' else ['nk', 'n'])
        stype, canon = gen.unit_of(rng)
        out.update(what=what, stype=stype, unit=gen.spell(rng, canon),
                   table=gen.table(rng, what, stype, canon, rng.choice([3, 4, 6]),
                                   lo_nm=300 if kind == 'array' else rng.choice([410, 470]),
                                   hi_nm=900 if kind == 'array' else rng.choice([690, 640])))
    elif kind == 'medium':
        out.update(parts=[shared_material(rng, rng.choice(['array', 'fixed', 'model'])) for _ in range(2)],
                   mix=rng.choice(MIXES), frac=round(rng.uniform(0.05, 0.95), 2),
                   values=[405.0] + sorted(round(rng.uniform(408, 692), 3) for _ in range(rng.randint(1, 6))) + [695.0])
    elif kind == 'model':
        mod = gen.model(rng)
        mod['range'] = [1.2, 4.2] if mod['stype'] == 'energy' else [0.3, 1.0]
        out['model'] = mod
    elif kind == 'fixed':
        out['arg'] = rng.choice(['fixed_n', 'fixed_nk', 'fixed_eps_r', 'fixed_eps'])
        out['value'] = [round(rng.uniform(1, 4), 3), round(rng.uniform(0, 2), 3)]
    else:
        out['spec'] = data_file(rng)
    out['down'] = rng.random() < 0.2        # a table from high to low values
    return out


def data_file(rng):
    fmt = rng.choice(['txt', 'csv', 'yml', 'yml'])
    stype, canon = gen.unit_of(rng)
    spec = {'fmt': fmt, 'meta': {k: gen.line(rng) for k in rm.META_ALIAS}, 'header': ['a comment'],
            'style': {'down': rng.random() < 0.2}}
    if fmt == 'yml' and rng.random() < 0.6:
        part = gen.model(rng, name=rng.choice(sorted(rm.NUMBER)))
        part['range'] = [0.3, 1.0]
        kpart = {'kind': 'tab', 'what': 'k', 'stype': stype, 'unit': gen.spell(rng, canon),
                 'rows': gen.table(rng, 'k', stype, canon, 4, lo_nm=310, hi_nm=880)}
        spec['parts'] = [part, kpart][:rng.choice([1, 2])]
        spec['style']['specs'] = rng.random() < 0.5
    else:
        what = rng.choice(['nk', 'n', 'n_alpha', 'eps'])
        spec['parts'] = [{'kind': 'tab', 'what': what, 'stype': stype, 'unit': gen.spell(rng, canon),
                          'rows': gen.table(rng, what, stype, canon, 4, lo_nm=320, hi_nm=870)}]
    return spec


def question(rng):
    """shared spectral points between 400 and 700 nm"""
    stype, canon = gen.unit_of(rng)
    count = rng.choice([1, 1, 2, 3, 5]) if rng.random() < 0.98 else rng.choice([40, 130, 300])
    lams = sorted(rng.uniform(415, 685) for _ in range(count))
    values = [rm.from_metre(v * 1e-9, stype, canon) for v in lams]
    form = rng.choice(['scalar' if count == 1 else 'array', 'array', 'spectrum', 'spectrum'])
    return {'stype': stype, 'unit': rng.choice(rm.UNIT_NAMES[canon]), 'values': values, 'form': form}


def operation(rng, plan):
    mats, asks, files = len(plan['mats']), len(plan['asks']), len(plan['files'])
    stype, canon = gen.unit_of(rng)
    kind = rng.choice(['nk', 'nk', 'nk', 'eps', 'eps', 'range', 'sample', 'prepare', 'writer', 'mix', 'mix', 'convert',
                       'contains', 'fetch', 'fetch', 'part', 'equal', 'private', 'rebuild', 'table'])
    return {'kind': kind, 'mat': rng.randrange(mats), 'mat2': rng.randrange(mats), 'ask': rng.randrange(asks),
            'ask2': rng.randrange(asks), 'file': rng.randrange(files), 'mix': rng.choice(MIXES),
            'frac': round(rng.uniform(0.05, 0.95), 2), 'stype': stype, 'unit': canon, 'alias': rng.random() < 0.5,
            'own': rng.random() < 0.25}


def generate(rng, tier):
    if rng.random() < 0.6:
        return focused(rng)
    plan = {'mats': [shared_material(rng) for _ in range(rng.choice([1, 2, 2, 3]))],
            'asks': [question(rng) for _ in range(rng.choice([1, 2, 3]))],
            'files': {}, 'knobs': random_knobs(rng, small=False), 'trace': rng.choice(['line', 'line', 'line', 'opcode'])}
    for i in range(rng.choice([1, 2, 2])):
        spec = data_file(rng)
        plan['files']['m%d.%s' % (i, spec['fmt'])] = spec
    plan['tasks'] = []
    for _ in range(rng.choice([2, 2, 3])):
        ops = [operation(rng, plan) for _ in range(rng.choice([1, 2, 2, 3]))]
        if plan['trace'] == 'opcode':
            ops = [op for op in ops if op['kind'] != 'rebuild'][:2] or [operation(rng, plan)]
        plan['tasks'].append(ops)
    if rng.random() < 0.6:      # the same question on the same object from several threads
        first = plan['tasks'][0][0]
        for ops in plan['tasks'][1:]:
            if rng.random() < 0.7:
                ops[0] = dict(first, ask=rng.randrange(len(plan['asks'])), stype=ops[0]['stype'], unit=ops[0]['unit'])
    return plan


EVALUATE = ['nk', 'nk', 'eps', 'eps', 'part', 'range', 'sample', 'prepare', 'writer', 'mix', 'mix', 'convert', 'contains']


def focused(rng):
    """few calls of the same kind on one object, with different questions"""
    plan = {'mats': [shared_material(rng) for _ in range(rng.choice([1, 1, 2]))],
            'asks': [question(rng) for _ in range(rng.choice([2, 3]))], 'files': {},
            'knobs': {}, 'trace': rng.choice(['line', 'line', 'line', 'opcode'])}
    if rng.random() < 0.6:
        plan['mats'][0] = shared_material(rng, 'model')
    for i in range(rng.choice([1, 2])):
        spec = data_file(rng)
        plan['files']['m%d.%s' % (i, spec['fmt'])] = spec
    kinds = [rng.choice(EVALUATE) for _ in range(rng.choice([1, 1, 2]))]
    if rng.random() < 0.15:
        kinds = [rng.choice(['fetch', 'private'])]
    plan['tasks'] = []
    for i in range(rng.choice([2, 2, 2, 3])):
        ops = []
        for _ in range(rng.choice([1, 1, 2])):
            op = operation(rng, plan)
            op.update(kind=rng.choice(kinds), mat=0, mat2=len(plan['mats']) - 1)
            if len(plan['asks']) > i:
                op['ask'] = i if rng.random() < 0.7 else op['ask']
            if rng.random() < 0.6:
                op['file'] = i % len(plan['files'])
            ops.append(op)
        plan['tasks'].append(ops)
    return plan


def perturb(plan, res, rng):
    plan = clone(plan)
    plan['preempt'] = place_preempts(max(res.steps, 5), rng, len(plan['tasks']), res.places)
    if rng.random() < 0.25:
        ops = {'t%d.%d' % (i, j) for i, t in enumerate(plan['tasks']) for j, o in enumerate(t)
               if o['kind'] in ('fetch', 'rebuild', 'private')}
        plan['faults'] = place_faults(res.trace, rng, ops=ops, errs=['eio', 'eacces', 'estale', 'emfile'], count=1)
    return plan


class Shared(object):
    """the objects all threads work on"""

    def __init__(self, run, sut, plan, tag, ops):
        import numpy as np
        world = run.world
        self.run, self.sut, self.plan = run, sut, plan
        self.arrays = []
        self.asked = []         # spectra handed to an extrapolation
        self.inner = []         # what shared effective media are made of
        self.mats = []
        for i, item in enumerate(plan['mats']):
            self.mats.append(run.must('%s.m%d' % (tag, i), lambda: self.material(item, i, np), 'making a material'))
        self.asks = []
        for ask in plan['asks']:
            if ask['form'] == 'scalar':
                self.asks.append(ask['values'][0])
            elif ask['form'] == 'array':
                self.asks.append(np.array(ask['values']))
            else:
                self.asks.append(sut.Spectrum(np.array(ask['values']) if len(ask['values']) > 1 else ask['values'][0],
                                              spectrum_type=ask['stype'], unit=ask['unit']))
        self.config = gen.config(world.path('db'), name='c.csv')
        self.cat = None
        if not any(op['kind'] in ('fetch', 'private', 'rebuild', 'table') for op in ops):
            return
        cat = run.must(tag + '.cat', lambda: sut.Catalogue(clone(self.config), rebuild='All'), 'building a catalogue')
        cat.set_database(cat.get_database().sort_values('Path', ignore_index=True))
        for i in range(len(plan['files'])):
            run.must('%s.a%d' % (tag, i), lambda: cat.register_alias(i, 'alias%d' % i), 'registering an alias')
        self.cat = cat

    def material(self, item, i, np):
        sut = self.sut
        kind = item['kind']
        if kind in ('array', 'extended'):
            table = np.array(item['table'][::-1] if item.get('down') else item['table'])
            self.arrays.append(table)
            mat = sut.Material(**{'tabulated_' + item['what']: table, 'spectrum_type': item['stype'],
                                  'unit': item['unit']})
            if kind == 'extended':
                wider = sut.Spectrum(np.array([350.0, 800.0]), spectrum_type='wavelength', unit='nm')
                mat.extrapolate(wider)
                self.asked.append(wider)
        elif kind == 'model':
            mod = item['model']
            params, ends = np.array(mod['params']), np.array(mod['range'])
            self.arrays += [params, ends]
            mat = sut.Material(model_kw={'name': mod['name'], 'spectrum_type': mod['stype'], 'unit': mod['unit'],
                                         'valid_range': ends, 'parameters': params},
                               spectrum_type=mod['stype'], unit=mod['unit'])
        elif kind == 'fixed':
            value = complex(*item['value'])
            mat = sut.Material(**{item['arg']: value if item['arg'] in ('fixed_nk', 'fixed_eps') else value.real})
        elif kind == 'medium':
            parts = [self.material(part, i, np) for part in item['parts']]
            self.inner += parts
            values = np.array(item['values'])
            self.arrays.append(values)
            return getattr(sut.modules['dispersion.material'], item['mix'])(
                sut.Spectrum(values, spectrum_type='wavelength', unit='nm'), parts[0], parts[1], item['frac'])
        else:
            rel = 'src/shared%d.%s' % (i, item['spec']['fmt'])
            mat = sut.Material(file_path=self.run.world.path(rel))
        mat.meta_data['Comment'] = 'material %d' % i
        return mat

    def state(self):
        """everything observable of the shared objects"""
        out = [canon(a) for a in self.arrays] + [canon(a) for a in self.asks]
        for mat in self.mats + self.inner:
            out.append(view(self.sut, mat))
        out.append(canon(self.config))
        if self.cat is not None:
            out.append(canon(rows_of(self.cat.get_database())))
            out.append(canon(self.cat.config))
        return out

    def operation(self, op):
        """the call one thread makes; returns the live result"""
        sut = self.sut
        mat, mat2, ask = self.mats[op['mat']], self.mats[op['mat2']], self.asks[op['ask']]
        info = self.plan['asks'][op['ask']]
        kind = op['kind']
        kw = {} if isinstance(ask, sut.Spectrum) else {'spectrum_type': info['stype'], 'unit': info['unit']}
        if kind == 'nk':
            return lambda: mat.get_nk_data(ask, **kw)
        if kind == 'eps':
            return lambda: mat.get_permittivity(ask, **kw)
        if kind == 'range':
            return mat.get_maximum_valid_range
        if kind == 'sample':
            return mat.get_sample_spectrum
        if kind in ('prepare', 'writer') and self.plan['mats'][op['mat']]['kind'] in ('extended', 'medium'):
            return mat.get_maximum_valid_range          # extrapolated data and media cannot be written
        if kind == 'prepare':
            return mat.prepare_file_dict
        if kind == 'writer':
            return lambda: sut.Writer(self.run.world.path('out.yml'), mat).file_dict
        if kind == 'mix':
            module = self.sut.modules['dispersion.material']
            spectrum = ask
            if not isinstance(ask, sut.Spectrum) or not hasattr(ask.values, 'shape'):
                spectrum = mat.get_sample_spectrum
                return lambda: mat.get_nk_data(ask, **kw)

            def mix():
                med = getattr(module, op['mix'])(spectrum, mat, mat2, op['frac'])
                lams = med.spectrum.values
                return [med.get_nk_data(sut.Spectrum(float(lams[0]))), canon(med.spectrum), canon(med.data['real'].evaluate(
                    sut.Spectrum(float(lams[0]))))]
            return mix
        if kind == 'convert':
            if isinstance(ask, sut.Spectrum):
                return lambda: ask.convert_to(op['stype'], op['unit'])
            return lambda: sut.Spectrum(ask, **kw).convert_to(op['stype'], op['unit'])
        if kind == 'contains':
            part = mat.data['complex'] or mat.data['real']
            return lambda: part.valid_range.contains(ask if isinstance(ask, sut.Spectrum) else sut.Spectrum(ask, **kw))
        if kind == 'part':
            part = mat.data['complex'] or mat.data['real']
            return lambda: part.evaluate(ask if isinstance(ask, sut.Spectrum) else sut.Spectrum(ask, **kw))
        if kind == 'equal':
            return lambda: mat == mat2
        if kind == 'table':
            return self.cat.get_database
        if kind == 'rebuild':
            return lambda: sorted((r['Path'], r['N_Reference']) for r in rows_of(
                sut.Catalogue(self.config, rebuild='All').get_database()))
        which = 'alias%d' % op['file'] if op['alias'] else op['file']
        if kind == 'fetch':
            def fetch():
                got = self.cat.get_material(which)
                return [got.get_nk_data(ask, **kw), dict(got.meta_data)]
            return fetch

        def private():
            # a thread that changes its own copy
            got = self.cat.get_material(which)
            got.meta_data['Comment'] = 'mine'
            got.remove_absorption()
            if got.data['complex'] is None:
                got.extrapolate(sut.Spectrum([200.0, 2000.0], spectrum_type='wavelength', unit='nm'))
            return [got.get_nk_data(ask, **kw), got.meta_data['Comment']]
        return private


def canon(value):
    """a plain, comparable copy of a result"""
    if isinstance(value, dict):
        return ['dict'] + sorted([str(k), canon(v)] for k, v in value.items())
    if isinstance(value, (list, tuple)):
        return [canon(v) for v in value]
    if hasattr(value, 'standard_rep'):
        return ['spectrum', value.spectrum_type, value.unit, canon(value.values), canon(value.standard_rep)]
    if hasattr(value, 'columns'):
        return ['table', canon(rows_of(value))]
    if hasattr(value, 'tolist'):
        return ['array', list(getattr(value, 'shape', ())), canon(value.tolist())]
    if isinstance(value, complex):
        return [num(value.real), num(value.imag)]
    if isinstance(value, float):
        return num(value)
    return value


def num(value):
    return 'nan' if math.isnan(value) else float('%.13g' % value) if not math.isinf(value) else str(value)


def view(sut, mat):
    """what can be observed of a material"""
    out = [canon(getattr(mat, 'meta_data', None)), canon(mat.defaults), canon(mat.get_maximum_valid_range())]
    values = [4.2e-7, 5.1e-7, 6.7e-7]
    out.append(canon([mat.get_nk_data(v) for v in values]))
    try:
        out.append(canon(mat.prepare_file_dict()))
    except AttributeError:          # extrapolated data
        pass
    return out


def process_state():
    """settings all threads of a process share"""
    import numpy as np
    import pandas as pd
    mask = os.umask(0o22)
    os.umask(mask)
    options = {k: str(v) for k, v in np.get_printoptions().items()}
    return [canon(np.geterr()), canon(options), os.getcwd(), [str(np.random.get_state()[1][:9]), random.getstate()[1][:9]],
            canon(dict(os.environ)), str(signal.getsignal(signal.SIGINT)), locale.setlocale(locale.LC_ALL), decimal.getcontext().prec,
            mask, sys.getrecursionlimit(), gc.isenabled(), str(warnings.filters), warnings.showwarning is WARN,
            [pd.get_option(name) for name in ('display.precision', 'display.max_rows', 'display.width')]]


def attempt(run, oid, fn):
    """an operation alone: its result, or how it fails"""
    out = run.call(oid, fn, proc='alone')
    return ('ok', canon(out.value)) if out.ok else (out.kind, type(out.exc).__name__)


def execute(run, plan):
    import numpy as np
    world = run.world
    write_files(run, plan['files'])
    for i, item in enumerate(plan['mats']):
        if item['kind'] == 'file':
            world.put('src/shared%d.%s' % (i, item['spec']['fmt']), rm.render(item['spec']))
    sut = run.load()
    settings = process_state()
    # every operation alone, on its own set of objects
    want = {}
    for i, ops in enumerate(plan['tasks']):
        for j, op in enumerate(ops):
            own = Shared(run, sut, plan, 'x%d.%d' % (i, j), [op])
            want[i, j] = attempt(run, 'alone%d.%d' % (i, j), own.operation(op))
            if want[i, j][0] == 'ok' and op['kind'] in ('fetch', 'rebuild', 'private', 'nk', 'eps'):
                world.probe('operation gives a result')
    shared = Shared(run, sut, plan, 'shared', [op for ops in plan['tasks'] for op in ops])
    for wider in shared.asked:
        run.check(canon([wider.values, wider.spectrum_type, wider.unit]) == canon([np.array([350.0, 800.0]), 'wavelength', 'nm']),
                  'side-effect', lambda: 'extrapolating changed the spectrum it was given to %s' % canon(wider))
    before = shared.state()
    tree = world.tree()
    results = {}

    def task(i, ops):
        for j, op in enumerate(ops):
            fn = shared.operation(op)
            out = run.call('t%d.%d' % (i, j), fn)
            results[i, j] = (out, canon(out.value) if out.ok else None)
            if out.ok and op.get('own') and op['kind'] not in SHARING:
                scribble(out.value)         # a caller may change what it was given
    run.concurrently([lambda i=i, ops=ops: task(i, ops) for i, ops in enumerate(plan['tasks'])], trace=plan['trace'])
    run.check(not run.muted, 'process-state', 'the handling of warnings in the process changed')
    for (i, j), (out, early) in sorted(results.items()):
        op = plan['tasks'][i][j]
        kind, value = want[i, j]
        run.state(op['kind'], plan['mats'][op['mat']]['kind'], plan['asks'][op['ask']]['form'], out.kind,
                  bool(run.last_sched.switches), plan['trace'])
        if out.op.fired:
            if out.ok:
                run.check(early == value or bool(run.warned), 'fault-hidden', 'a read fault changed a result silently')
            continue
        if kind == 'ok':
            run.check(out.ok, 'thread-failed', lambda: '%s %s in a thread, alone it works' % (op['kind'], out.describe()))
            run.check(early == value, 'thread-result', lambda: '%s in a thread gave %s, alone %s' % (
                op['kind'], str(early)[:300], str(value)[:300]))
            if op.get('own') and op['kind'] not in SHARING:
                continue
            late = canon(out.value)
            run.check(late == early, 'changed-later', lambda: 'a result of %s changed after it was handed out: %s -> %s' % (
                op['kind'], str(early)[:200], str(late)[:200]))
        else:
            run.check(not out.ok, 'thread-result', lambda: '%s in a thread gave a result, alone it is refused' % op['kind'])
    after = shared.state()
    for a, b in zip(before, after):
        run.check(a == b, 'side-effect', lambda: 'a shared object changed from %s to %s' % (first_diff(a, b)))
    run.check(world.tree() == tree, 'files', 'files changed')
    for a, b in zip(settings, process_state()):
        run.check(a == b, 'process-state', lambda: 'a setting of the process changed from %s to %s' % first_diff(a, b))
    # a result belongs to the caller that asked for it
    for k, mat in enumerate(shared.mats):
        for name, ask in questions(sut, mat):
            first = run.must('again%d.%s.0' % (k, name), ask, 'evaluating')
            old = canon(first)
            scribble(first)
            new = canon(run.must('again%d.%s.1' % (k, name), ask, 'evaluating again'))
            run.check(new == old, 'result-shared', lambda: 'asking for %s a second time gives %s, not %s, after the caller '
                      'changed the first result' % ((name,) + first_diff(new, old)))
    # what a material was made from belongs to the caller
    views = [view(sut, mat) for mat in shared.mats]
    for array in shared.arrays:
        array[...] = array * 1.5 + 1.0
    for mat, old in zip(shared.mats, views):
        new = view(sut, mat)
        run.check(new == old, 'depends-on-caller', lambda: 'a material changed from %s to %s when the caller changed the arrays it '
                  'was made from' % first_diff(old, new))
    # changing a material does not change what was handed out before
    for k, mat in enumerate(shared.mats):
        run.must('lossless%d' % k, mat.remove_absorption, 'removing absorption')
        if plan['mats'][k]['kind'] != 'fixed' and mat.data['complex'] is None:
            run.call('extend%d' % k, lambda: mat.extrapolate(
                sut.Spectrum([200.0, 2000.0], spectrum_type='wavelength', unit='nm')))
    for (i, j), (out, early) in sorted(results.items()):
        op = plan['tasks'][i][j]
        if out.ok and not out.op.fired and not op.get('own') and op['kind'] not in SHARING:
            late = canon(out.value)
            run.check(late == early, 'changed-later', lambda: 'a result of %s changed when the material was changed: '
                      '%s -> %s' % (op['kind'], str(early)[:200], str(late)[:200]))


def questions(sut, mat):
    """calls that answer with data"""
    import numpy as np
    spectrum = sut.Spectrum(np.array([4.5e-7, 5.5e-7, 6.5e-7]))
    out = [('nk', lambda: mat.get_nk_data(spectrum)), ('eps', lambda: mat.get_permittivity(spectrum)),
           ('range', mat.get_maximum_valid_range), ('sample', mat.get_sample_spectrum)]
    for name in ('real', 'imag', 'complex'):
        if mat.data[name] is not None:
            out.append((name, lambda part=mat.data[name]: part.evaluate(spectrum)))
    return out


def scribble(value):
    if isinstance(value, list):
        for item in value:
            scribble(item)
    elif isinstance(value, dict):
        value.clear()
    elif hasattr(value, 'fill') and getattr(value, 'shape', ()):
        value.fill(-3.0)
    elif hasattr(value, 'standard_rep'):
        scribble(value.values)


def first_diff(a, b):
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for x, y in zip(a, b):
            if x != y:
                return first_diff(x, y)
    return str(a)[:200], str(b)[:200]


def simplify(plan):
    for i, ops in enumerate(plan['tasks']):
        for j in range(len(ops)):
            if len(ops) > 1:
                cand = clone(plan)
                del cand['tasks'][i][j]
                yield cand
