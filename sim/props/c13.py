"""C13: a material fetched from the database evaluates to what its file states"""
import random

from .. import gen
from .common import *

BUDGET = {'quick': 1200, 'thorough': 20000}
VARIANTS = {'quick': 3, 'thorough': 7}
CALLS = 0.3
SHRINK = ('steps',)


def question(rng):
    stype, canon = gen.unit_of(rng)
    return {'stype': stype, 'unit': rng.choice(rm.UNIT_NAMES[canon]), 'form': rng.choice(['scalar', 'array', 'list', 'spectrum', 'ints']),
            'at': [rng.choice([0.0, 1.0, None]) if rng.random() < 0.12 else rng.uniform(0.02, 0.98)
                   for _ in range(rng.choice([1, 2, 3, 6]) if rng.random() < 0.98 else rng.choice([40, 130, 300]))],
            'beyond': rng.choice([None, None, None, 'low', 'high']), 'by': rng.uniform(1.03, 2.5),
            'eps': rng.random() < 0.4, 'case': rng.random() < 0.1}


def generate(rng, tier):
    files, used = {}, set()
    for _ in range(rng.randint(1, 4)):
        fmt = rng.choice(['txt', 'csv', 'yml', 'yml'])
        name = gen.file_name(rng, used, fmt)
        used.add(name)
        files[name] = gen.spec(rng, fmt=fmt)
    rii = rii_tree(rng, rng.randint(1, 4)) if rng.random() < 0.6 else None
    steps = []
    for i in range(rng.randint(3, 10)):
        kind = rng.random()
        step = {'q': [question(rng) for _ in range(rng.choice([1, 2, 3]))], 'pick': rng.randrange(1000)}
        if kind < 0.4:
            step.update(op='fetch', by=rng.choice(['row', 'row', 'alias', 'negative']), later=rng.random() < 0.25)
            if rng.random() < 0.05:
                step.update(op='many', count=rng.randint(9, 12))
        elif kind < 0.5:
            step.update(op='direct')
        elif kind < 0.62:
            step.update(op='replace', twin=rng.randrange(1000) if rng.random() < 0.4 else None)
            fmt = None
            step['specs'] = {f: gen.spec(rng, fmt=f) for f in ('txt', 'csv', 'yml')}
        elif kind < 0.7:
            step.update(op='rebuild', what=rng.choice(['All', 'UserData', 'RefractiveIndexInfo', 'None']))
        elif kind < 0.76:
            step.update(op='save')
        elif kind < 0.82:
            step.update(op='restart')
        elif kind < 0.9:
            step.update(op='lossless')
        elif kind < 0.97:
            step.update(op='extrapolate', order=rng.choice([1, 2, 3]))
        else:
            step.update(op='delete')
        steps.append(step)
    return {'files': files, 'rii': rii, 'steps': steps, 'knobs': random_knobs(rng), 'ref': gen.reference(rng)}


def perturb(plan, res, rng):
    plan = clone(plan)
    ops = {'s%d' % i for i, s in enumerate(plan['steps']) if s['op'] in ('fetch', 'direct', 'lossless', 'extrapolate')}
    if rng.random() < 0.3:
        ops |= {'s%d.b' % i for i, s in enumerate(plan['steps']) if s['op'] == 'rebuild'}
    plan['knobs'] = random_knobs(rng)
    plan['faults'] = place_faults(res.trace, rng, ops=ops, errs=['eio', 'estale', 'eacces', 'emfile', 'intr', 'mem', 'crash'],
                                  count=rng.choice([1, 1, 2, 3]))
    return plan


class Live(object):
    """a material somebody holds"""

    def __init__(self, mat, spec, unit, name):
        self.mat, self.spec, self.name = mat, spec, name
        self.meaning = rm.Meaning(spec, 'wavelength', unit)
        self.lossless = self.wider = False


def value_at(meaning, lam, eps, lossless):
    name, value = meaning._complex(lam)
    if lossless and not complex_model(meaning):
        value = complex(value.real, 0.0)
    if name == 'eps':
        import cmath
        return value if eps else cmath.sqrt(value)
    return value * value if eps else value


def complex_model(meaning):
    return any(p['kind'] == 'model' and rm.MODELS[p['name']][1] == 'eps' for p, _s, _u in meaning.parts)


def lams_of(live, q):
    """wavelengths asked for, None where the own edge of the range is meant"""
    lower, upper = live.meaning.range_m()
    if not lower <= upper:
        return None
    out = []
    for t in q['at']:
        if lower == upper:
            out.append(lower)
        else:
            t = 0.5 if t is None else t
            out.append(lower * (upper / lower) ** min(max(t, 0.0), 1.0))
    if q['beyond']:
        out.append(lower / q['by'] if q['beyond'] == 'low' else upper * q['by'])
    if q['form'] == 'scalar':
        out = out[-1:]
    return out


def edges(live):
    """the exact ends of the range in the unit of the part that limits it"""
    out = []
    lower, upper = live.meaning.range_m()
    for part, stype, unit in live.meaning.parts:
        ends = (part['rows'][0][0], part['rows'][-1][0]) if part['kind'] == 'tab' else part['range']
        for end in ends:
            lam = rm.to_metre(end, stype, unit)
            if lam in (lower, upper) and lower <= lam <= upper:
                out.append((end, stype, unit, lam))
    return out


def ask(run, live, q, oid):
    import numpy as np
    lams = lams_of(live, q)
    if lams is None:
        return
    stype, unit = q['stype'], q['unit']
    values = [rm.from_metre(v, stype, unit) for v in lams]
    lower, upper = live.meaning.range_m()
    if q['form'] == 'ints':
        # whole numbers, as users like to write them
        whole = [int(round(v)) for v in values if round(v) > 0]
        whole = [v for v in whole if lower < rm.to_metre(v, stype, unit) < upper or q['beyond']]
        if whole:
            values, lams = whole, [rm.to_metre(float(v), stype, unit) for v in whole]
            run.world.probe('whole numbers asked for')
        else:
            q = dict(q, form='array')
    if any(abs(v / end - 1) < 2e-6 and not end * (1 - 1e-9) < v < end * (1 + 1e-9) for v in lams for end in (lower, upper) if 0 < end < 1):
        return                  # too close to the edge to say
    refused = any(v < lower * (1 - 1e-6) or v > upper * (1 + 1e-6) for v in lams)
    judge_one(run, live, q, oid, values, lams, stype, unit, refused)
    for k, (end, stype, unit, lam) in enumerate(edges(live)[:2]):
        judge_one(run, live, dict(q, form='scalar' if q['form'] == 'scalar' else 'array'), '%s.e%d' % (oid, k), [end], [lam],
                  stype, unit, False)


def judge_one(run, live, q, oid, values, lams, stype, unit, refused):
    import numpy as np
    mat = live.mat
    func = mat.get_permittivity if q['eps'] else mat.get_nk_data
    kw = {'spectrum_type': stype.upper() if q['case'] else stype, 'unit': unit}
    if q['form'] == 'scalar':
        job = lambda: func(float(values[-1]), **kw)
        lams = lams[-1:]
    elif q['form'] in ('list', 'ints'):
        job = lambda: func(list(values), **kw)
    elif q['form'] == 'array':
        job = lambda: func(np.array(values), **kw)
    else:
        spectrum = run.sut.Spectrum(np.array(values), **kw)
        job = lambda: func(spectrum)
    out = run.call(oid, job, proc='eval')
    what = '%s of %s at %r %s (%s)' % ('permittivity' if q['eps'] else 'n,k', live.name, values, unit, q['form'])
    if refused and not live.wider:
        run.check(not out.ok, 'outside-accepted', lambda: '%s is outside the valid range but gave %r' % (what, out.value))
        run.check(isinstance(out.exc, ValueError), 'outside-error', lambda: '%s: %s' % (what, out.describe()))
        run.world.probe('outside refused')
        return
    if refused:
        return                      # extrapolated values are another property's subject
    run.check(out.ok, 'inside-refused', lambda: '%s %s' % (what, out.describe()))
    got = np.asarray(out.value)
    run.check(got.size == len(lams) and (q['form'] == 'scalar') == (got.ndim == 0), 'shape',
              lambda: '%s has the shape %r' % (what, got.shape))
    for lam, value in zip(lams, got.reshape(-1)):
        lower, upper = live.meaning.range_m()
        want = value_at(live.meaning, lam, q['eps'], live.lossless)
        # rounding in a conversion of units moves the point by up to 1e-8
        slack = 0.0
        for near in (lam * (1 - 2e-8), lam * (1 + 2e-8)):
            if lower < near < upper:
                slack = max(slack, abs(value_at(live.meaning, near, q['eps'], live.lossless) - want))
        ok = abs(complex(value) - want) <= 2e-6 * (1 + abs(want)) + 2 * slack
        if not ok and not q['eps'] and abs(complex(value) + want) < 1e-9 and want.real == 0:
            ok = True
        run.check(ok, 'wrong-value', lambda: '%s is %r at %r m, the file gives %r' % (what, complex(value), lam, want))
    run.state(live.spec['fmt'], tuple(sorted(p.get('what') or p['name'] for p in live.spec['parts'])), q['stype'], q['form'],
              q['eps'], live.lossless)


class Story(object):
    def __init__(self, run, plan):
        self.run, self.plan, self.world = run, plan, run.world
        self.files = {}         # (module, path) -> (spec, default unit) or None
        self.live = []

    def place(self):
        write_files(self.run, self.plan['files'])
        for name, spec in self.plan['files'].items():
            self.files['UserData', name] = (spec, 'nm')
        self.world.mkdir('db/UserData')
        rii = self.plan['rii']
        if rii:
            put_rii(self.run, rii)
            for name, spec in rii['files'].items():
                self.files['RefractiveIndexInfo', 'database/%s/%s' % (rii['datadir'], name)] = (spec, 'um')
        self.config = gen.config(self.world.path('db'), name='c.csv', ref=self.plan['ref'],
                                 modules={'UserData': True, 'RefractiveIndexInfo': bool(rii)})

    def play(self):
        run, plan, world = self.run, self.plan, self.world
        self.place()
        self.sut = run.sut = run.load()
        self.cat = run.must('init', lambda: self.sut.Catalogue(clone(self.config), rebuild='All'), 'rebuild')
        run.must('init.s', self.cat.save_to_file, 'saving')
        for i, step in enumerate(plan['steps']):
            oid = 's%d' % i
            if run.procs and not run.alive():
                self.restart(oid)
            getattr(self, 'do_' + step['op'])(step, oid)
            self.recheck(step, oid)
        for name, (spec, _unit) in self.files.items():
            run.check(world.get('db/%s/%s' % name) == rm.render(spec), 'file-changed', lambda: 'the file %s changed' % (name,))

    def restart(self, oid):
        run = self.run
        run.kill('main')
        self.sut = run.sut = run.load()
        self.live = []
        self.cat = run.must(oid + '.o', lambda: self.sut.Catalogue(clone(self.config)), 'opening the catalogue')

    def recheck(self, step, oid):
        """materials fetched earlier still have their values"""
        for k, live in enumerate(self.live[-3:]):
            for j, q in enumerate(step['q'][:1]):
                ask(self.run, live, q, '%s.k%d.%d' % (oid, k, j))

    # -- steps ---------------------------------------------------------------------------
    def pick(self, step, alias=False):
        frame = self.cat.get_database()
        if not frame.shape[0]:
            return None
        index = step['pick'] % frame.shape[0]
        row = frame.iloc[index]
        return index, frame.shape[0], (row['Module'], row['Path'])

    def fetch(self, step, oid, by='row'):
        run = self.run
        picked = self.pick(step)
        if picked is None:
            return None
        index, total, key = picked
        ident = index
        if by == 'alias':
            ident = self.cat.get_database()['Alias'].tolist()[index]
            if not ident:
                ident = 'al %d' % index
                run.must(oid + '.r', lambda: self.cat.register_alias(index, ident), 'registering an alias')
        elif by == 'negative':
            ident = index - total
        out = run.call(oid, lambda: self.cat.get_material(ident))
        return self.got(out, key, 'fetching %r' % (ident,))

    def got(self, out, key, what):
        run = self.run
        entry = self.files.get(key)
        errs = [f['err'] for f in out.op.fired]
        if 'intr' in errs:
            run.check(not out.ok, 'interrupt-swallowed', 'Ctrl-C was swallowed')
        if entry is None:
            run.check(not out.ok, 'gone', lambda: '%s gave a material although %s is gone' % (what, key))
            return None
        if not out.ok:
            outcome_ok_or_fault(out, 'fetch-failed', '%s (%s)' % (what, key))
            run.world.probe('fault while fetching reported')
            return None
        spec, unit = entry
        live = Live(out.value, spec, unit, key[1])
        for name in ('Comment', 'Reference'):
            run.check(out.value.meta_data[name] == spec['meta'].get(name, ''), 'metadata', lambda: '%s: %s is %r, the file '
                      'says %r' % (what, name, out.value.meta_data[name], spec['meta'].get(name, '')))
        return live

    def do_many(self, step, oid):
        """a session that holds many materials at a time"""
        for k in range(step['count']):
            live = self.fetch(dict(step, pick=step['pick'] + k), '%s.%d' % (oid, k))
            if live is not None:
                self.live.append(live)

    def do_fetch(self, step, oid):
        live = self.fetch(step, oid, step['by'])
        if live is None:
            return
        for j, q in [] if step.get('later') else enumerate(step['q']):
            ask(self.run, live, q, '%s.q%d' % (oid, j))
        self.live.append(live)

    def do_direct(self, step, oid):
        keys = sorted(k for k in self.files)
        if not keys:
            return
        key = keys[step['pick'] % len(keys)]
        spec, unit = self.files[key]
        path = self.world.path('db/%s/%s' % key)
        out = self.run.call(oid, lambda: self.sut.Material(file_path=path, spectrum_type='wavelength', unit=unit))
        live = self.got(out, key, 'reading %s' % key[1])
        if live is None:
            return
        for j, q in enumerate(step['q']):
            ask(self.run, live, q, '%s.q%d' % (oid, j))
        self.live.append(live)

    def do_replace(self, step, oid):
        keys = sorted(k for k in self.files)
        if not keys:
            return
        key = keys[step['pick'] % len(keys)]
        if step['twin'] is not None:
            old = self.files[key]
            new = (gen.same_size(random.Random(step['twin']), old[0]),) + tuple(old[1:])
        elif key[0] == 'RefractiveIndexInfo':
            # pages keep their layout: other pages of the library are the source of new content
            others = [v for k, v in sorted(self.files.items()) if k[0] == key[0]]
            new = others[(step['pick'] // 7) % len(others)]
        else:
            new = (step['specs'][key[1][-3:]], 'nm')
        self.files[key] = new
        self.world.put('db/%s/%s' % key, rm.render(new[0]))
        self.world.probe('file replaced')

    def do_delete(self, step, oid):
        keys = sorted(k for k in self.files)
        if len(keys) < 2:
            return
        key = keys[step['pick'] % len(keys)]
        del self.files[key]
        self.world.delete('db/%s/%s' % key)

    def do_rebuild(self, step, oid):
        what = step['what']
        if what == 'RefractiveIndexInfo' and not self.plan['rii']:
            what = 'UserData'
        out = self.run.call(oid + '.b', lambda: self.sut.Catalogue(clone(self.config), rebuild=what))
        outcome_ok_or_fault(out, 'rebuild-failed', 'rebuilding %s' % what)
        if out.ok:
            self.cat = out.value

    def do_save(self, step, oid):
        self.run.must(oid, self.cat.save_to_file, 'saving')

    def do_restart(self, step, oid):
        self.restart(oid)

    def do_lossless(self, step, oid):
        """absorption removed from one material only"""
        live, twin = self.fetch(step, oid), self.fetch(step, oid + '.t')
        if live is None or twin is None:
            return
        self.run.must(oid + '.x', live.mat.remove_absorption, 'removing absorption')
        live.lossless = True
        # without the table of the imaginary part its limits are gone
        live.wider = any(p.get('what') in ('k', 'eps_k') for p in live.spec['parts'])
        self.live += [twin, live]
        self.others(step, oid, twin)

    def do_extrapolate(self, step, oid):
        live, twin = self.fetch(step, oid), self.fetch(step, oid + '.t')
        if live is None or twin is None:
            return
        lower, upper = live.meaning.range_m()
        if complex_model(live.meaning) or not lower < upper or any(len(p.get('rows', [1, 2])) < 2 for p in live.spec['parts']):
            return
        # beyond every part of the data
        lo, hi = lower, upper
        for part, stype, unit in live.meaning.parts:
            ends = (part['rows'][0][0], part['rows'][-1][0]) if part['kind'] == 'tab' else part['range']
            for end in ends:
                lam = rm.to_metre(end, stype, unit)
                lo, hi = min(lo, lam), max(hi, lam)
        spectrum = self.sut.Spectrum([lo * 0.9, hi * 1.1])
        out = self.run.call(oid + '.x', lambda: live.mat.extrapolate(spectrum, spline_order=step['order']), proc='eval')
        self.run.check(out.ok, 'extrapolate-failed', lambda: 'extrapolating %s: %s' % (live.name, out.describe()))
        live.wider = True
        self.live += [twin, live]
        self.others(step, oid, twin)

    def others(self, step, oid, twin):
        fresh = self.fetch(step, oid + '.n')
        for k, live in enumerate([twin] + ([fresh] if fresh else [])):
            for j, q in enumerate(step['q']):
                ask(self.run, live, q, '%s.o%d.%d' % (oid, k, j))


def execute(run, plan):
    Story(run, plan).play()


def simplify(plan):
    for name in plan['files']:
        if len(plan['files']) > 1:
            cand = clone(plan)
            del cand['files'][name]
            yield cand
    if plan['rii']:
        yield dict(clone(plan), rii=None)
    for i, step in enumerate(plan['steps']):
        if len(step['q']) > 1:
            for j in range(len(step['q'])):
                cand = clone(plan)
                del cand['steps'][i]['q'][j]
                yield cand
