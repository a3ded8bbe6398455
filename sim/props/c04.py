"""C04: a rebuild lists exactly the data files present, with correct values"""
import random

from .. import gen
from .common import *

BUDGET = {'quick': 1200, 'thorough': 24000}
VARIANTS = {'quick': 2, 'thorough': 4}
SHRINK = ('ops',)
TEXTS = ('UserData', 'Filmetrics')


def generate(rng, tier):
    order = ['UserData', 'RefractiveIndexInfo', 'Filmetrics']
    rng.shuffle(order)
    modules = {}
    for name in order:
        if rng.random() < 0.85:
            modules[name] = rng.random() < 0.85
    if not any(modules.values()):
        modules['UserData'] = True
    trees = {}
    for name in TEXTS:
        files = {}
        many = rng.random() < 0.02
        for _ in range(rng.choice([0, 1, 2, 3, 5]) if not many else rng.choice([12, 20, 35])):
            spec = gen.spec(rng, simple=many)
            files[gen.file_name(rng, files, spec['fmt'])] = spec
        trees[name] = files
    trees['RefractiveIndexInfo'] = rii_tree(rng, rng.choice([15, 30]) if rng.random() < 0.02 else None)
    ops = [{'id': 'o0', 'do': 'full', 'fresh': True}, {'id': 'o1', 'do': 'save'}]
    for i in range(rng.randint(0, 8)):
        do = rng.choice(['put', 'put', 'del', 'full', 'full', 'partial', 'partial', 'alias', 'save', 'page', 'unpage',
                         'noise', 'ref', 'list', 'swap', 'swap', 'digits', 'copy', 'link', 'link'])
        op = {'id': 'o%d' % (i + 2), 'do': do, 'pick': rng.randrange(1000), 'module': rng.choice(TEXTS)}
        if do in ('put', 'swap'):
            op['spec'] = gen.spec(rng)
            op['name'] = gen.file_name(rng, (), op['spec']['fmt'])
            op['twin'] = rng.random() < 0.6
        elif do == 'copy':
            op['name'] = gen.file_name(rng, (), 'txt')[:-4]
        elif do == 'link':
            op['nowhere'] = rng.random() < 0.2
        elif do == 'page':
            op['spec'] = gen.spec(rng, rii=True, default_unit='um', simple=True)
        elif do == 'full':
            op['fresh'] = rng.random() < 0.5
        elif do == 'partial':
            op['module'] = rng.choice(order)
            op['fresh'] = rng.random() < 0.5
        elif do == 'list':
            op['modules'] = rng.sample(order, rng.randint(1, 2))
            op['fresh'] = True
        elif do == 'alias':
            op['alias'] = 'alias-%d' % i
        elif do == 'ref':
            op['ref'] = gen.reference(rng)
        elif do == 'noise':
            op['name'] = rng.choice(gen.IGNORED + ['data.nk'])
        ops.append(op)
    ops.append({'id': 'last', 'do': 'full', 'fresh': rng.random() < 0.5})
    return {'modules': modules, 'trees': trees, 'ops': ops, 'ref': gen.reference(rng),
            'noise': [rng.choice(gen.IGNORED) for _ in range(rng.randint(0, 3))], 'subdir': rng.random() < 0.3,
            'cover': rng.random(), 'knobs': random_knobs(rng)}


def perturb(plan, res, rng):
    plan = clone(plan)
    plan['knobs'] = random_knobs(rng)
    return plan


def inside_reference(plan):
    """a reference inside the range of one of the files, so that values are compared"""
    specs = [(s, 'nm') for m in TEXTS for s in plan['trees'][m].values()] + \
        [(s, 'um') for s in plan['trees']['RefractiveIndexInfo']['files'].values()]
    if not specs:
        return None
    spec, unit = specs[int(plan['cover'] * 1000) % len(specs)]
    lower, upper = rm.Meaning(spec, 'wavelength', unit).range_m()
    if lower == 0 or lower >= upper or upper == float('inf'):
        return None
    ref = dict(plan['ref'])
    part = spec['parts'][0]
    if plan['cover'] < 0.2 and len(spec['parts']) == 1 and part['kind'] == 'tab':
        # exactly at a row of the table, the first and last included
        rows = part['rows']
        at = [0, -1, len(rows) // 2][int(plan['cover'] * 1e5) % 3]
        return {'Value': float(rows[at][0]), 'SpectrumType': part['stype'] or 'wavelength',
                'Unit': part['unit'] or {'nm': 'nanometer', 'um': 'micrometer'}[unit]}
    value = rm.from_metre(lower + (upper - lower) * (0.1 + 0.8 * plan['cover']), ref['SpectrumType'], ref['Unit'])
    ref['Value'] = float('%.7g' % value)
    return ref


class Model(object):
    def __init__(self, plan):
        self.trees = clone(plan['trees'])
        self.modules = plan['modules']
        self.ref = plan['ref']
        if plan['cover'] < 0.7:
            self.ref = inside_reference(plan) or self.ref

    def rows(self, module):
        return module_rows(module, self.trees[module], self.ref)


def execute(run, plan):
    world = run.world
    model = Model(plan)
    for name in TEXTS:
        world.mkdir('db/' + name)
        write_files(run, model.trees[name], 'db/' + name)
        for extra in plan['noise']:
            world.put('db/%s/%s' % (name, extra), b'1 2 3\nnot a material\n')
        if plan['subdir']:
            world.mkdir('db/%s/sub.txt' % name)
            world.put('db/%s/deeper/inner.txt' % name, b'1 2 3\n')
    put_rii(run, model.trees['RefractiveIndexInfo'])
    world.put('db/RefractiveIndexInfo/stray.txt', b'500 1.5 0\n')
    sut = run.load()
    cat, stored = None, None
    for op in plan['ops']:
        do, oid = op['do'], op['id']
        conf = gen.config(world.path('db'), modules=plan['modules'], ref=model.ref, name='c.csv')
        if do in ('full', 'partial', 'list'):
            if op['fresh']:
                run.kill('main')
                sut = run.load()
            before = world.tree()
            if do == 'full':
                cat = run.must(oid, lambda: sut.Catalogue(conf, rebuild='All'), 'full rebuild')
                rows = rows_of(cat.get_database())
                want = [r for m, on in model.modules.items() if on for r in model.rows(m)]
                diff = match_rows(rows, want)
                run.check(diff is None, 'wrong-rows', lambda: 'full rebuild: %s' % diff)
                run.state('full', len(rows), sorted(m for m, on in model.modules.items() if on))
            else:
                if stored is None:
                    continue
                which = [op['module']] if do == 'partial' else op['modules']
                rebuild = op['module'] if do == 'partial' else list(which)
                out = run.call(oid, lambda: sut.Catalogue(conf, rebuild=rebuild))
                if do == 'partial' and model.modules.get(op['module'], None) is False:
                    run.check(not out.ok, 'disabled-rebuilt', 'rebuilding a disabled module did not raise')
                    continue
                if do == 'list' and not all(model.modules.get(m) for m in which):
                    continue
                if op['module'] not in model.modules and do == 'partial':
                    continue
                run.check(out.ok, 'partial-failed', lambda: 'partial rebuild of %s: %s' % (which, out.describe()))
                cat = out.value
                rows = rows_of(cat.get_database())
                for module, on in model.modules.items():
                    part = [r for r in rows if r['Module'] == module]
                    if not on:
                        continue
                    if module in which:
                        diff = match_rows(part, model.rows(module))
                        run.check(diff is None, 'wrong-rows', lambda: 'partial rebuild of %s: %s' % (which, diff))
                    else:
                        diff = table_diff(part, [r for r in stored if r['Module'] == module])
                        run.check(diff is None, 'other-module', lambda: 'rebuild of %s changed the rows of %s: %s' % (
                            which, module, diff))
                left = [r for r in rows if not model.modules.get(r['Module'])]
                run.check(not left, 'wrong-rows', lambda: 'rows of a module that is not enabled: %r' % left[:1])
                run.state('partial', which, len(rows))
            run.check(world.tree() == before, 'disk-changed', lambda: 'a rebuild changed the disk: %r' % sorted(
                set(world.tree().items()) ^ set(before.items()), key=str)[:4])
        elif do == 'save' and cat is not None:
            run.must(oid, cat.save_to_file, 'saving')
            stored = rows_of(cat.get_database())
        elif do == 'alias' and cat is not None and cat.get_database().shape[0]:
            row = op['pick'] % cat.get_database().shape[0]
            if op['alias'] not in [r['Alias'] for r in rows_of(cat.get_database())]:
                run.must(oid, lambda: cat.register_alias(row, op['alias']), 'registering an alias')
        elif do == 'put':
            files = model.trees[op['module']]
            names = [n for n in files if n.endswith(op['spec']['fmt'])]
            name = names[op['pick'] % len(names)] if names and op['pick'] % 3 == 0 else op['name']
            files[name] = op['spec']
            world.put('db/%s/%s' % (op['module'], name), rm.render(op['spec']))
        elif do == 'swap':
            # the same name with another extension
            files = model.trees[op['module']]
            if files:
                old = sorted(files)[op['pick'] % len(files)]
                spec = op['spec']
                if op['twin'] and old[-3:] != 'yml':        # the same material in the other text format
                    spec = dict(clone(files[old]), fmt='csv' if old[-3:] == 'txt' else 'txt')
                name = old[:-4] + '.' + spec['fmt']
                files[name] = spec
                world.put('db/%s/%s' % (op['module'], name), rm.render(spec))
        elif do == 'copy':
            # the same content under another name
            files = model.trees[op['module']]
            if files:
                old = sorted(files)[op['pick'] % len(files)]
                name = op['name'] + old[-4:]
                files[name] = clone(files[old])
                world.put('db/%s/%s' % (op['module'], name), rm.render(files[name]))
        elif do == 'link':
            # the data file is kept elsewhere, a link leads to it
            files = model.trees[op['module']]
            if op['nowhere']:
                world.link('db/%s/nowhere.txt' % op['module'], 'gone.txt')
            elif files:
                name = sorted(files)[op['pick'] % len(files)]
                world.put('kept/%s%s' % (op['id'], name[-4:]), rm.render(files[name]))
                world.delete('db/%s/%s' % (op['module'], name))
                world.link('db/%s/%s' % (op['module'], name), 'kept/%s%s' % (op['id'], name[-4:]))
        elif do == 'digits':
            # other values, nothing else: same size, possibly the same time stamp
            files = model.trees[op['module']]
            if files:
                name = sorted(files)[op['pick'] % len(files)]
                files[name] = gen.same_size(random.Random(op['pick']), files[name])
                world.put('db/%s/%s' % (op['module'], name), rm.render(files[name]))
        elif do == 'del':
            files = model.trees[op['module']]
            if files:
                name = sorted(files)[op['pick'] % len(files)]
                del files[name]
                world.delete('db/%s/%s' % (op['module'], name))
        elif do == 'page':
            rii = model.trees['RefractiveIndexInfo']
            listed = [page['data'] for _b, page in pages_of(rii)]
            if listed:
                name = listed[op['pick'] % len(listed)]
                rii['files'][name] = op['spec']
                world.put(RII + rii['datadir'] + '/' + name, rm.render(op['spec']))
        elif do == 'unpage':
            rii = model.trees['RefractiveIndexInfo']
            if rii['files']:
                name = sorted(rii['files'])[op['pick'] % len(rii['files'])]
                del rii['files'][name]
                world.delete(RII + rii['datadir'] + '/' + name)
        elif do == 'noise':
            world.put('db/%s/%s' % (op['module'], op['name']), b'junk: [\n')
        elif do == 'ref':
            model.ref = op['ref']


def simplify(plan):
    for module in TEXTS:
        for name in plan['trees'][module]:
            cand = clone(plan)
            del cand['trees'][module][name]
            yield cand
    if plan['trees']['RefractiveIndexInfo']['shelves']:
        cand = clone(plan)
        cand['trees']['RefractiveIndexInfo'].update(shelves=[], files={})
        yield cand
    for name in plan['trees']['RefractiveIndexInfo']['files']:
        cand = clone(plan)
        del cand['trees']['RefractiveIndexInfo']['files'][name]
        yield cand
    for module in plan['modules']:
        if len(plan['modules']) > 1:
            cand = clone(plan)
            del cand['modules'][module]
            yield cand
    if plan['noise'] or plan['subdir']:
        cand = clone(plan)
        cand.update(noise=[], subdir=False)
        yield cand
