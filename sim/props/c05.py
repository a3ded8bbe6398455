"""C05: read faults during a rebuild never give wrong or silently missing rows"""
from .. import gen
from .common import *

BUDGET = {'quick': 800, 'thorough': 18000}
VARIANTS = {'quick': 6, 'thorough': 14}
CALLS = 0.3
SHRINK = ('edits',)
READ_ERRS = ['eio', 'eacces', 'emfile', 'estale', 'intr', 'mem', 'crash']


def generate(rng, tier):
    modules = {}
    for name in rng.sample(['UserData', 'RefractiveIndexInfo', 'Filmetrics'], 3):
        modules[name] = rng.random() < 0.7
    if not modules['UserData'] and not modules['RefractiveIndexInfo']:
        modules[rng.choice(['UserData', 'RefractiveIndexInfo'])] = True
    trees = {'RefractiveIndexInfo': rii_tree(rng, pages=rng.randint(1, 5))}
    for name in ('UserData', 'Filmetrics'):
        files = {}
        for _ in range(rng.choice([0, 1, 2, 4])):
            spec = gen.spec(rng, simple=rng.random() < 0.5)
            files[gen.file_name(rng, files, spec['fmt'])] = spec
        trees[name] = files
    edits = []
    if rng.random() < 0.45:
        for i in range(rng.randint(1, 5)):
            edit = {'module': rng.choice(['UserData', 'RefractiveIndexInfo']), 'pick': rng.randrange(100),
                    'gone': rng.random() < 0.15, 'seed': rng.randrange(10**6)}
            edits.append(edit)
    knobs = random_knobs(rng)
    if edits:
        knobs.setdefault('read_chunk', rng.choice([16, 64, 200]))
    if knobs.get('read_chunk', 99) < 7:
        knobs['read_chunk'] = 7
    part = rng.choice([m for m, on in modules.items() if on])
    return {'modules': modules, 'trees': trees, 'ref': gen.reference(rng), 'edits': edits, 'knobs': knobs,
            'partial': part if rng.random() < 0.3 else None, 'stored': gen.catalogue_rows(rng, rng.randint(0, 4)),
            'rounds': rng.choice([1, 1, 2]), 'damage': [rng.randrange(100), rng.choice(['bytes', 'bytes', 'word', 'cut'])]
            if rng.random() < 0.3 else None}


def perturb(plan, res, rng):
    plan = clone(plan)
    plan['faults'] = []
    if plan['edits']:
        plan['preempt'] = spread(res.steps, rng, len(plan['edits']))
        if rng.random() < 0.6:
            return plan
    rounds = {'r%d' % i for i in range(plan['rounds'])}
    kinds = ('open_r', 'read', 'listdir')
    style = rng.random()
    if style < 0.5:
        errs = ['eio', 'eacces', 'emfile', 'estale']
        where = lambda rel: '/database/data' in rel if style < 0.3 else True
        plan['faults'] = place_faults(res.trace, rng, ops=rounds, errs=errs, kinds=kinds, count=rng.choice([1, 1, 2, 3]),
                                      rel=where)
    else:
        plan['faults'] = place_faults(res.trace, rng, ops=rounds, errs=READ_ERRS, kinds=kinds + ('call',),
                                      count=rng.choice([1, 1, 2]))
    return plan


def spread(steps, rng, count):
    """the rebuild is task 0; the editor gets the baton count times"""
    out = [[-1, 0]]
    for _ in range(count):
        out.append([rng.randrange(max(1, steps)), 1])
    return sorted(out)


def new_version(plan, edit, module, name, index):
    import random as randmod
    rng = randmod.Random('edit:%d' % edit['seed'])
    if module == 'RefractiveIndexInfo':
        spec = gen.spec(rng, rii=True, default_unit='um', simple=True)
    else:
        spec = gen.spec(rng, fmt=name[-3:], simple=True)
    spec['meta']['Comment'] = 'edit %d' % index
    return spec


class Files(object):
    """all versions each file had during the rebuild (None: absent)"""

    def __init__(self, plan):
        self.plan = plan
        self.now = clone(plan['trees'])
        self.begin()

    def begin(self):
        self.versions = {}
        for module, name, spec in self.current():
            self.versions[module, name] = [spec]

    def current(self):
        for module, on in self.plan['modules'].items():
            if not on:
                continue
            if module == 'RefractiveIndexInfo':
                for name in sorted({page['data'] for _b, page in pages_of(self.now[module])}):
                    yield module, name, self.now[module]['files'].get(name)
            else:
                for name, spec in self.now[module].items():
                    yield module, name, spec

    def candidates(self, module, ref):
        """list of (name, expected rows of every version)"""
        out = []
        if module == 'RefractiveIndexInfo':
            for book, page in pages_of(self.now[module]):
                vers = self.versions[module, page['data']]
                out.append((page['data'], [None if spec is None else page_row(
                    book['BOOK'], book['name'], page, spec, ref, self.now[module]['datadir']) for spec in vers]))
        else:
            for (mod, name), vers in self.versions.items():
                if mod == module:
                    out.append((name, [None if spec is None else file_row(module, name, spec, ref)
                                       for spec in vers]))
        return out


def path_of(files, module, name):
    if module == 'RefractiveIndexInfo':
        return RII + files.now[module]['datadir'] + '/' + name
    return 'db/%s/%s' % (module, name)


def execute(run, plan):
    world = run.world
    files = Files(plan)
    for name in ('UserData', 'Filmetrics'):
        world.mkdir('db/' + name)
        write_files(run, files.now[name], 'db/' + name)
        world.put('db/%s/ignored.dat' % name, b'x')
    put_rii(run, files.now['RefractiveIndexInfo'])
    conf = gen.config(world.path('db'), modules=plan['modules'], ref=plan['ref'], name='c.csv')
    sut = run.load()
    cat = run.must('init', lambda: sut.Catalogue(gen.config(world.path('db'), modules={'UserData': False}, name='c.csv'),
                                                 rebuild='All'), 'rebuild without modules')
    run.must('init.t', lambda: cat.set_database(frame_of(plan['stored'])), 'set_database')
    run.must('init.s', cat.save_to_file, 'saving')
    for i in range(plan['rounds']):
        oid = 'r%d' % i
        if not run.alive():
            sut = run.load()
        files.begin()
        which = list(m for m, on in plan['modules'].items() if on) if not plan['partial'] else [plan['partial']]
        rebuild = plan['partial'] or 'All'
        before = world.tree()
        if plan['edits'] and i == 0:
            out, warned = with_editor(run, plan, files, oid, lambda: sut.Catalogue(conf, rebuild=rebuild))
        else:
            out = run.call(oid, lambda: sut.Catalogue(conf, rebuild=rebuild))
            warned = out.warned
            run.check(world.tree() == before, 'disk-changed', lambda: 'a rebuild that %s changed the disk' %
                      out.describe())
        judge(run, plan, files, out, warned, which)
        # nothing else goes wrong: a new rebuild is complete
        files.begin()
        if not run.alive():
            world.probe('restart after a crash')
            sut = run.load()
        cat = run.must(oid + '.again', lambda: sut.Catalogue(conf, rebuild=rebuild), 'rebuild after the faults stopped')
        rows = rows_of(cat.get_database())
        for module in which:
            want = module_rows(module, files.now[module], plan['ref'])
            diff = match_rows([r for r in rows if r['Module'] == module], want)
            run.check(diff is None, 'not-recovered', lambda: 'rebuild after the faults stopped: %s' % diff)
        if plan['partial']:
            keep_others(run, plan, rows, which)
    if plan.get('damage'):
        damaged(run, plan, files, sut, conf, rebuild, which)


def damaged(run, plan, files, sut, conf, rebuild, which):
    """the content of one file cannot be read"""
    world = run.world
    names = sorted((m, n) for m, n, spec in files.current() if m in which and spec is not None)
    if not names:
        return
    pick, how = plan['damage']
    module, name = names[pick % len(names)]
    path = path_of(files, module, name)
    good = world.get(path)
    if how == 'bytes':
        bad = b'# Author: M\xfcller\n' + good
    elif how == 'word':
        bad = b'400 1.5 0.1\n500 broken 0.2\n' if name[-3:] != 'yml' else b'DATA:\n  - type: tabulated nk\n    data: [x\n'
    else:
        bad = b''
        if name[-3:] != 'yml':
            return                      # an empty table
    world.put(path, bad)
    out = run.call('damaged', lambda: sut.Catalogue(conf, rebuild=rebuild))
    run.state('damaged', module, how, out.kind)
    if out.ok:
        shown = path[3 + len(module):].lstrip('/')
        rows = rows_of(out.value.get_database())
        run.check(not any(r['Path'] == shown and r['Module'] == module for r in rows), 'wrong-row',
                  lambda: 'there is a row for %s, which cannot be read' % path)
        run.check(any(name.split('/')[-1] in text for text in out.warned), 'silently-missing', lambda: '%s cannot be read '
                  '(%s), has no row and no warning names it' % (path, how))
        run.world.probe('damaged file skipped with a warning')
    else:
        run.world.probe('damaged file refused')
    world.put(path, good)
    cat = run.must('repaired', lambda: sut.Catalogue(conf, rebuild=rebuild), 'rebuild after the file was repaired')
    rows = rows_of(cat.get_database())
    for module in which:
        diff = match_rows([r for r in rows if r['Module'] == module], module_rows(module, files.now[module], plan['ref']))
        run.check(diff is None, 'not-recovered', lambda: 'rebuild after the file was repaired: %s' % diff)


def keep_others(run, plan, rows, which):
    for module, on in plan['modules'].items():
        if on and module not in which:
            diff = table_diff([r for r in rows if r['Module'] == module],
                              [r for r in plan['stored'] if r['Module'] == module])
            run.check(diff is None, 'other-module', lambda: 'rebuild of %s changed the rows of %s: %s' % (
                which, module, diff))


def with_editor(run, plan, files, oid, fn):
    """another program replaces and removes data files during the rebuild"""
    world = run.world
    box = {}

    def rebuild():
        box['out'] = run.call(oid, fn)

    def editor():
        for index, edit in enumerate(plan['edits']):
            module = edit['module']
            names = sorted(n for m, n in files.versions if m == module)
            if names:
                name = names[edit['pick'] % len(names)]
                tree = files.now[module]['files'] if module == 'RefractiveIndexInfo' else files.now[module]
                if edit['gone']:
                    if tree.pop(name, None) is not None:
                        world.delete(path_of(files, module, name))
                        files.versions[module, name].append(None)
                else:
                    spec = new_version(plan, edit, module, name, index)
                    tree[name] = spec
                    world.put(path_of(files, module, name), rm.render(spec))
                    files.versions[module, name].append(spec)
            if 'out' in box:
                continue
            world.probe('file changed during the rebuild')
            world.sched.pause()

    run.concurrently([rebuild, editor])
    return box['out'], run.warned


def judge(run, plan, files, out, warned, which):
    fired = out.op.fired
    errs = [f['err'] for f in fired]
    changing = bool(plan['edits']) and out.op.id == 'r0'
    if 'intr' in errs:
        run.check(out.kind == 'intr' or (out.kind in ('error', 'crash') and len(errs) > 1), 'interrupt-swallowed',
                  lambda: 'Ctrl-C during a rebuild was swallowed: the rebuild %s' % out.describe())
    pages_only = plan_pages_only(out) and all(e in seam.ERRNO for e in errs)
    run.state(out.kind, sorted(set(errs)), pages_only, changing, plan['partial'] is not None)
    if not out.ok:
        if changing:
            # removing a file of UserData between listing and reading it may fail the rebuild
            gone = any(None in v for (m, _n), v in files.versions.items() if m != 'RefractiveIndexInfo')
            run.check(fired or gone, 'rebuild-failed', lambda: 'rebuild while files are replaced: %s' % out.describe())
        else:
            run.check(bool(fired), 'rebuild-failed', lambda: 'rebuild without any fault: %s' % out.describe())
        if fired:
            run.check(not pages_only or changing, 'one-page-costs-all', lambda: 'an operating-system error on a page '
                      'of RefractiveIndexInfo made the whole rebuild fail: %s' % out.describe())
        run.world.probe('rebuild raised')
        return
    rows = rows_of(out.value.get_database())
    for module in which:
        got = [r for r in rows if r['Module'] == module]
        left = []
        for name, wants in files.candidates(module, plan['ref']):
            path = path_of(files, module, name)[3 + len(module):].lstrip('/')
            for row in got:
                if row['Path'] == path and any(w is not None and expected_diff(row, w) is None for w in wants):
                    got.remove(row)
                    break
            else:
                left.append((name, path, wants))
        for name, path, wants in left:
            named = any(name.split('/')[-1] in text for text in warned)
            wrong = [r for r in got if r['Path'] == path]
            run.check(not wrong, 'wrong-row', lambda: 'the row of %s is not what a fault-free rebuild gives: %s' % (
                path, expected_diff(wrong[0], [w for w in wants if w is not None][-1])
                if any(w is not None for w in wants) else wrong[0]))
            run.check(named or (None in wants and module != 'RefractiveIndexInfo'), 'silently-missing',
                      lambda: '%s has no row and no warning names it; the rebuild returned normally after %s' % (
                          path, errs or 'no fault'))
            if module == 'RefractiveIndexInfo' and not changing:
                full = path_of(files, module, name)
                touched = any(full == e[2] for e in out.op.events if any(
                    f['at'] == e[0] or (f.get('sticky') and f['err'] == 'emfile' and f['at'] < e[0]) for f in fired))
                run.check(wants == [None] or touched, 'page-lost', lambda: 'page %s was skipped although only other '
                          'files failed' % name)
                if touched:
                    run.world.probe('page skipped with a warning')
        run.check(not got, 'wrong-row', lambda: 'rows that no file explains: %r' % got[:1])
    if plan['partial']:
        keep_others(run, plan, rows, which)


def plan_pages_only(out):
    """every fault of the operation hit a page of RefractiveIndexInfo"""
    if any(f.get('sticky') and f['err'] == 'emfile' for f in out.op.fired):
        return False
    hit = [e[2] for e in out.op.events if any(f['at'] == e[0] for f in out.op.fired)]
    return bool(hit) and all('/database/data' in rel and rel.endswith('.yml') and rel.count('/') > 4 for rel in hit)


def simplify(plan):
    for module in ('UserData', 'Filmetrics'):
        for name in plan['trees'][module]:
            cand = clone(plan)
            del cand['trees'][module][name]
            yield cand
    if plan['stored']:
        cand = clone(plan)
        cand['stored'] = []
        yield cand
