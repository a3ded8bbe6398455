"""C07: a material written to a file reads back as the same material"""
import math

from .. import gen
from .common import *

BUDGET = {'quick': 1600, 'thorough': 28000}
VARIANTS = {'quick': 2, 'thorough': 5}
SHRINK = ('steps',)
KEYS = ('Reference', 'Comment', 'Name', 'FullName', 'Author')

# how the session shows arrays on the screen
PRINT = {'digits': {'precision': 2}, 'short': {'formatter': {'float': '{:.2f}'.format}}, 'plus': {'sign': '+'},
         'quoted': {'formatter': {'all': '<{}>'.format}}, 'old': {'legacy': '1.13'}, 'few': {'threshold': 3, 'edgeitems': 1},
         'plain': {'suppress': True, 'floatmode': 'fixed', 'linewidth': 10}}


def shown(plan, job):
    def inner():
        import numpy as np
        with np.printoptions(**PRINT[plan['print']]):
            return job()
    return inner if plan.get('print') else job


def generate(rng, tier):
    kind = rng.choice(['file', 'file', 'file', 'array', 'array', 'model'])
    plan = {'kind': kind, 'meta': {}, 'lossless': rng.random() < 0.1, 'reuse': rng.random() < 0.4,
            'down': rng.random() < 0.15,
            'print': rng.choice(sorted(PRINT)) if rng.random() < 0.25 else None}
    if kind == 'file':
        rows = None
        if rng.random() < 0.04:
            rows = rng.choice([600, 1001, 1300])
        while True:
            spec = gen.spec(rng, rows=rows)
            if all(len(p.get('rows', [1, 2])) > 1 for p in spec['parts']):
                break
        plan['spec'] = spec
        parts = spec['parts']
        textable = len(parts) == 1 and parts[0]['kind'] == 'tab' and parts[0]['what'] in ('n', 'nk', 'n_alpha')
        one_line = spec['fmt'] != 'yml' or not any('\n' in t or t != t.strip() or '\t' in t or '\r' in t
                                                  for t in spec['meta'].values())
        textable = textable and one_line
    elif kind == 'array':
        what = rng.choice(['nk', 'n', 'eps', 'n_alpha', 'nk'])
        stype, canon = gen.unit_of(rng)
        rows = rng.choice([2, 3, 5, 9, 30]) if rng.random() < 0.95 else rng.choice([1000, 1001, 1500])
        table = gen.table(rng, what, stype, canon, rows)
        if rng.random() < 0.5:      # digits a short format would lose
            table = [[row[0]] + [v * (1 + 1e-7 * rng.random()) for v in row[1:]] for row in table]
            if rng.random() < 0.5:
                for row in table:
                    if len(row) > 2 and what != 'n_alpha':
                        row[2] *= 10.0 ** -rng.randint(2, 9)
        plan.update(what=what, stype=stype, unit=gen.spell(rng, canon), table=table)
        textable = what != 'eps'
    else:
        plan['model'] = gen.model(rng)
        if rng.random() < 0.4:
            plan['model']['params'] = [p * (1 + 1e-9 * rng.random()) for p in plan['model']['params']]
        textable = False
    steps = []
    for i in range(rng.choice([1, 1, 2, 3])):
        fmt = rng.choice(['yml', 'yml', 'txt', 'csv', 'nk']) if textable else 'yml'
        step = {'fmt': fmt, 'name': rng.choice(['out', 'out%d' % i, 'Ünï', 'a b']), 'times': rng.choice([1, 1, 2]),
                'reload': rng.random() < 0.5, 'exists': rng.random() < 0.3, 'strip': rng.random() < 0.06,
                'default': [s for s in gen.unit_of(rng)]}
        if kind != 'file' or rng.random() < 0.5:
            step['meta'] = {}
            for key in KEYS:
                if rng.random() < 0.8:
                    step['meta'][key] = gen.line(rng) if textable else gen.text(rng, multiline=True)
            if rng.random() < 0.6:
                step['header'] = [rng.choice(gen.HEADER) for _ in range(rng.randint(1, 4))]
        steps.append(step)
    if kind == 'file' and all(p['kind'] == 'tab' and p['what'] == 'k' for p in plan['spec']['parts']):
        for step in steps:
            step['strip'] = False       # nothing would remain
    plan['steps'] = steps
    plan['knobs'] = random_knobs(rng, small=False)
    plan['points'] = [rng.uniform(0.01, 0.99) for _ in range(6)]
    return plan


def perturb(plan, res, rng):
    plan = clone(plan)
    knobs = plan['knobs']
    plan['knobs'] = dict(knobs, **{k: v for k, v in random_knobs(rng, small=False).items() if k != 'bufsize'})
    ops = {'w%d.0' % i for i in range(len(plan['steps']))}
    plan['faults'] = follow_up(place_faults(res.trace, rng, ops=ops, errs=[
        'eio', 'enospc', 'eacces', 'emfile', 'intr', 'crash', 'crash_after', 'erofs', 'mem', 'edquot'],
        count=rng.choice([1, 1, 2])), rng)
    return plan


def build(run, plan, sut, oid):
    import numpy as np
    if plan['kind'] == 'file':
        name = 'source.' + plan['spec']['fmt']
        run.world.put('d/' + name, rm.render(plan['spec']))
        return run.must(oid, lambda: sut.Material(file_path=run.world.path('d/' + name), spectrum_type='wavelength',
                                                  unit='nanometer'), 'reading the source')
    if plan['kind'] == 'array':
        table = np.array(plan['table'][::-1] if plan.get('down') else plan['table'])
        kw = {'tabulated_' + plan['what']: table, 'spectrum_type': plan['stype'], 'unit': plan['unit']}
        mat = run.must(oid, lambda: sut.Material(**kw), 'making a material')
        if plan.get('reuse'):
            table[:, 1:] = 7.0              # the caller's array serves something else now
        return mat
    mod = plan['model']
    kw = {'name': mod['name'], 'spectrum_type': mod['stype'], 'unit': mod['unit'],
          'valid_range': np.array(mod['range']), 'parameters': np.array(mod['params'])}
    return run.must(oid, lambda: sut.Material(model_kw=kw, spectrum_type=mod['stype'], unit=mod['unit']), 'making a material')


def sample(run, plan, mat, oid):
    """values of a material inside its range, as plain data"""
    def probe():
        lower, upper = (float(v) for v in wavelengths(mat))
        points = [lower * (upper / lower) ** t for t in plan['points']]
        nk = [complex(mat.get_nk_data(p, spectrum_type='wavelength', unit='meter')) for p in points]
        eps = [complex(mat.get_permittivity(p, spectrum_type='wavelength', unit='meter')) for p in points]
        return {'range': [lower, upper], 'points': points, 'nk': nk, 'eps': eps}
    got = run.must(oid, probe, 'evaluating')
    got['meta'] = {key: mat.meta_data[key] for key in KEYS}
    got['header'] = mat.meta_data['MetaComment']
    return got


def wavelengths(mat):
    """the valid range as wavelengths in metre"""
    ends = [float(v) for v in mat.get_maximum_valid_range()]
    return sorted(rm.to_metre(v, mat.defaults['spectrum_type'], mat.defaults['unit']) for v in ends)


def same(a, b, tol):
    if math.isnan(a.real) or math.isnan(b.real):
        return math.isnan(a.real) and math.isnan(b.real)
    return abs(a - b) <= tol * (abs(a) + abs(b) + 1e-3)


def lines_of(text):
    text = text.rstrip('\r\n')
    return text.split('\n') if text else []


def execute(run, plan):
    world = run.world
    world.mkdir('d')
    sut = run.load()
    mat = build(run, plan, sut, 'build')
    for i, step in enumerate(plan['steps']):
        if 'meta' in step:
            for key, text in step['meta'].items():
                mat.meta_data[key] = text
        if 'header' in step:
            mat.meta_data['MetaComment'] = '\n'.join(step['header'])
        if step['strip']:
            mat.remove_absorption()
        rel = 'd/%s.%s' % (step['name'], step['fmt'])
        path = world.path(rel)
        if step['exists']:
            world.put(rel, b'# an old file\n400 1 0\n')
        want = sample(run, plan, mat, 'e%d' % i)
        writer = run.must('n%d' % i, shown(plan, lambda: sut.Writer(path, mat)), 'making a writer')
        done = False
        for j in range(step['times'] + 2):
            out = run.call('w%d.%d' % (i, j), shown(plan, writer.write_file))
            outcome_ok_or_fault(out, 'write-failed', 'writing %s' % step['fmt'])
            run.state(plan['kind'], step['fmt'], out.kind, j, [f['err'] for f in out.op.fired])
            if out.ok:
                check_file(run, plan, step, path, want, 'c%d.%d' % (i, j))
                if step['fmt'] == 'yml':
                    compare(run, sut, mat, path, 'q%d.%d' % (i, j))
                done = True
                if j + 1 >= step['times']:
                    break
            elif not run.alive():
                world.probe('restart after a crash')
                sut = run.load()
                mat2 = clone_material(run, plan, sut, mat, i)
                if mat2 is None:
                    return
                mat = mat2
                writer = run.must('x%d.%d' % (i, j), shown(plan, lambda: sut.Writer(path, mat)), 'making a writer')
        run.check(done, 'write-failed', 'writing %s did not succeed after the faults stopped' % step['fmt'])
        if step['reload']:
            mat = run.must('l%d' % i, lambda: sut.Material(file_path=path), 'reading back')


def compare(run, sut, mat, path, oid):
    """the library's own comparison"""
    back = run.must(oid, lambda: sut.Material(file_path=path), 'reading back')
    for a, b in ((mat, back), (back, mat)):
        out = run.call(oid + '.e', lambda: a == b)
        # a header comment read from a text file ends with a line break, one read from a yml file does not
        loose = mat.meta_data['MetaComment'].endswith('\n')
        run.check(out.ok and (loose or out.value is True), 'not-equal', lambda: 'the material written and the one read back compare: %s' % (
            out.describe() if not out.ok else out.value))


def clone_material(run, plan, sut, mat, i):
    """the material object of the process that died, in the new process"""
    if i or plan['kind'] == 'file' and plan['steps'][0]['name'] == 'source':
        return None
    new = build(run, plan, sut, 'rebuild%d' % i)
    new.meta_data.update(mat.meta_data)
    if plan['steps'][0]['strip']:
        new.remove_absorption()
    return new


def check_file(run, plan, step, path, want, oid):
    sut = run.load()
    stype, canon = step['default']
    mat = run.must(oid, lambda: sut.Material(file_path=path, spectrum_type=stype, unit=canon), 'reading back a %s file' %
                   step['fmt'], proc='reader', code='unreadable')
    got = run.must(oid + '.r', lambda: [float(v) for v in wavelengths(mat)], 'range', proc='reader')
    for i in (0, 1):
        run.check(same_num(got[i], want['range'][i], 1e-9), 'range', lambda: 'the range read back is %r, written %r' % (
            got, want['range']))
    for p, wnk, weps in zip(want['points'], want['nk'], want['eps']):
        nk, eps = run.must(oid + '.v', lambda: (complex(mat.get_nk_data(p)), complex(mat.get_permittivity(p))),
                           'evaluating what was read back', proc='reader', code='value')
        run.check(same(nk, wnk, 1e-9), 'value', lambda: 'n,k at %r m is %r, written %r (%s file)' % (
            p, nk, wnk, step['fmt']))
        run.check(same(eps, weps, 1e-9), 'value', lambda: 'permittivity at %r m is %r, written %r' % (p, eps, weps))
    for key in KEYS:
        run.check(mat.meta_data[key] == want['meta'][key], 'metadata', lambda: '%s is %r, written %r (%s file)' % (
            key, mat.meta_data[key], want['meta'][key], step['fmt']))
    glines, wlines = lines_of(mat.meta_data['MetaComment']), lines_of(want['header'])
    run.check(glines == wlines, 'header', lambda: 'header comment is %r, written %r (%s file)' % (
        glines, wlines, step['fmt']))


def simplify(plan):
    if plan['kind'] == 'array' and len(plan['table']) > 2:
        for table in (plan['table'][:2], plan['table'][:len(plan['table']) // 2]):
            if len(table) > 1:
                cand = clone(plan)
                cand['table'] = table
                yield cand
    for i, step in enumerate(plan['steps']):
        for key in list(step.get('meta', {})):
            cand = clone(plan)
            del cand['steps'][i]['meta'][key]
            yield cand
        if 'header' in step:
            cand = clone(plan)
            del cand['steps'][i]['header']
            yield cand
