"""C08: a failed or interrupted material write never damages stored data"""
from .. import gen
from .common import *

BUDGET = {'quick': 640, 'thorough': 16000}
VARIANTS = {'quick': 9, 'thorough': 20}
CALLS = 0.3
SHRINK = ('steps', 'extras')
EXTRAS = ['notes.tmp', 'old.yml.tmp', 'saved.yml~', 'x.bak', '.hidden', 'tmpdata', '.tmp_mine', 'target.old', 'a.lock',
          'target.yml.bak', 'copy.part']


def simple_spec(rng, fmt, tag, rows=None):
    while True:
        spec = gen.spec(rng, fmt=fmt, simple=True, rows=rows)
        if all(len(p.get('rows', [1, 2])) > 1 for p in spec['parts']):
            break
    spec['meta']['Comment'] = 'content %s' % tag
    return spec


def generate(rng, tier):
    others = {}
    for i in range(rng.randint(0, 3)):
        fmt = rng.choice(['txt', 'csv', 'yml'])
        others['other%d.%s' % (i, fmt)] = simple_spec(rng, fmt, 'other')
    fmt = rng.choice(['yml', 'yml', 'yml', 'txt', 'csv'])
    name = rng.choice(['target', 'other0', 'Ünï', 'a b']) + '.' + fmt
    old = simple_spec(rng, fmt, 'old') if rng.random() < 0.75 or name in others else None
    others.pop(name, None)
    extras = rng.sample(EXTRAS, rng.choice([0, 1, 2, 4]))
    steps = []
    for i in range(rng.choice([1, 1, 2, 3])):
        rows = rng.choice([None, None, None, 40])
        text = rng.choice(['txt', 'csv'])
        spec = simple_spec(rng, 'yml' if fmt == 'yml' and rng.random() < 0.7 else text, 'new %d' % i, rows)
        if fmt != 'yml':
            while not (len(spec['parts']) == 1 and spec['parts'][0].get('what') in ('n', 'nk')):
                spec = simple_spec(rng, text, 'new %d' % i)
        steps.append({'spec': spec, 'header': [rng.choice(gen.HEADER[:4]) for _ in range(rng.randint(0, 2))],
                      'reuse': rng.random() < 0.3})
    return {'others': others, 'extras': extras, 'name': name, 'old': old, 'steps': steps, 'knobs': random_knobs(rng, small=False)}


def perturb(plan, res, rng):
    plan = clone(plan)
    ops = {'w%d' % i for i in range(len(plan['steps']))}
    plan['faults'] = follow_up(place_faults(res.trace, rng, ops=ops, count=rng.choice([1, 1, 1, 2, 3])), rng)
    return plan


def read(run, sut, path, oid):
    """content as the reader sees it, without the path"""
    def job():
        got = sut.io.Reader(path).read_file()
        out = {'meta': got['MetaData'], 'sets': []}
        for item in got['Datasets']:
            data = item['Data']
            data = data.tolist() if hasattr(data, 'tolist') else data
            out['sets'].append(dict(item, Data=data))
        return out
    return run.call(oid, job, proc='reader')


def execute(run, plan):
    world = run.world
    world.mkdir('db/UserData')
    world.mkdir('src')
    write_files(run, plan['others'])
    for extra in plan.get('extras', []):
        world.put('db/UserData/' + extra, b'kept as it is\n')
    rel = 'db/UserData/' + plan['name']
    path = world.path(rel)
    ext = plan['name'][-3:]
    if plan['old']:
        world.put(rel, rm.render(plan['old']))
    config = gen.config(world.path('db'), name='c.csv')
    keep = {name: data for name, data in world.tree().items() if name != rel}
    sut = run.load()
    for i, step in enumerate(plan['steps']):
        run.durable()
        old = world.get(rel)
        source = 'src/s%d.%s' % (i, step['spec']['fmt'])
        world.put(source, rm.render(step['spec']))
        keep[source] = world.get(source)
        if not run.alive() and run.procs:
            sut = run.load()
        writer = prepare(run, sut, step, source, path, i, 'p%d' % i)
        # what the complete new content is
        ref = 'src/ref%d.%s' % (i, ext)
        refwriter = prepare(run, sut, step, source, world.path(ref), i, 'q%d' % i)
        run.must('ref%d' % i, refwriter.write_file, 'writing')
        keep[ref] = new = world.get(ref)
        run.durable()
        out = run.call('w%d' % i, writer.write_file)
        outcome_ok_or_fault(out, 'write-failed', 'writing a material file')
        what = 'after a write that %s with %s' % (out.describe(), [f['err'] for f in out.op.fired])
        data = world.get(rel)
        run.state(ext, out.kind, [f['err'] for f in out.op.fired][:2], data == old, old is None)
        if 'intr' in [f['err'] for f in out.op.fired]:
            run.check(not out.ok, 'interrupt-swallowed', 'Ctrl-C during a write was swallowed')
        state = judge(run, sut, what, out, rel, old, new, world.path(ref), i)
        check_rest(run, keep, what)
        check_rebuild(run, plan, config, rel, what, i)
        # once the faults stop the write can be repeated
        if not run.alive():
            world.probe('restart after a crash')
            sut = run.load()
            writer = prepare(run, sut, step, source, path, i, 'r%d' % i)
        elif not out.ok:
            world.probe('retry with the same writer')
        run.must('again%d' % i, writer.write_file, 'writing again after the faults stopped', code='retry-failed')
        judge(run, sut, 'after the repeated write', None, rel, None, new, world.path(ref), '%d.again' % i)
        check_rest(run, keep, 'after the repeated write')


def prepare(run, sut, step, source, path, i, oid):
    mat = run.must(oid + '.m', lambda: sut.Material(file_path=run.world.path(source)), 'reading the source')
    if step['header']:
        mat.meta_data['MetaComment'] = '\n'.join(step['header'])
    return run.must(oid + '.n', lambda: sut.Writer(path, mat), 'making a writer')


def judge(run, sut, what, out, rel, old, new, ref, i):
    data = run.world.get(rel)
    if data == new:
        if out is not None and not out.ok:
            run.world.probe('new content in place although the write failed')
        return 'new'
    run.check(data is not None or old is None, 'lost', lambda: '%s the file is gone' % what)
    if data != old:
        # not byte for byte the same: it still counts if it reads the same
        got, want = read(run, sut, run.world.path(rel), 'j%s.a' % i), read(run, sut, ref, 'j%s.b' % i)
        run.check(got.ok and want.ok and repr(got.value) == repr(want.value), 'damaged',
                  lambda: '%s the file holds neither the old nor the new content: %r' % (what, data[:200]))
        return 'new'
    run.check(out is not None and not out.ok, 'write-lost', lambda: '%s the new content is not stored' % what)
    run.world.probe('old content kept' if old is not None else 'still absent')
    return 'old'


def check_rest(run, keep, what):
    for name, data in keep.items():
        got = run.world.tree().get(name) if data is None else run.world.get(name)
        run.check(got == data, 'other-file', lambda: '%s the file %s changed' % (what, name))


def check_rebuild(run, plan, config, rel, what, i):
    sut = run.load()
    cat = run.must('b%d' % i, lambda: sut.Catalogue(config, rebuild='All'), '%s: rebuilding the catalogue' % what,
                   proc='other', code='rebuild-failed')
    got = sorted(cat.get_database()['Path'])
    want = sorted(list(plan['others']) + ([plan['name']] if run.world.get(rel) is not None else []))
    run.check(got == want, 'leftover-listed', lambda: '%s a rebuild lists %r instead of %r' % (what, got, want))


def simplify(plan):
    for name in plan['others']:
        cand = clone(plan)
        del cand['others'][name]
        yield cand
    for i, step in enumerate(plan['steps']):
        if step['header']:
            cand = clone(plan)
            cand['steps'][i]['header'] = []
            yield cand
