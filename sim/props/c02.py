"""C02: a failed or interrupted save never damages the stored catalogue"""
from .. import gen
from .common import *

BUDGET = {'quick': 700, 'thorough': 16000}
VARIANTS = {'quick': 9, 'thorough': 20}
CALLS = 0.3
SHRINK = ('ops',)
CAT = 'db/cat.csv'


def generate(rng, tier):
    ops = []
    count = rng.randint(1, 3)
    for i in range(count):
        size = rng.choice([0, 1, 2, 3, 6, 12]) if rng.random() < 0.95 else 80
        rows = gen.catalogue_rows(rng, size)
        for row in rows:
            row['Comment'] = 'version %d' % (i + 1)     # every version is recognisable
        ops.append({'id': 's%d' % i, 'do': 'save', 'rows': rows, 'fresh': rng.random() < 0.3,
                    'via': rng.choice(['set', 'set', 'cells'])})
    first = gen.catalogue_rows(rng, rng.choice([1, 3, 9])) if rng.random() < 0.85 else None
    knobs = random_knobs(rng)
    if knobs.get('read_chunk', 1000) < 64:
        knobs['read_chunk'] = 64
    return {'ops': ops, 'first': first, 'knobs': knobs, 'other': rng.random() < 0.5}


def perturb(plan, res, rng):
    plan = clone(plan)
    ops = {op['id'] for op in plan['ops']}
    target = rng.choice(sorted(ops)) if rng.random() < 0.7 else None
    plan['faults'] = follow_up(place_faults(res.trace, rng, ops={target} if target else ops,
                                            count=rng.choice([1, 1, 1, 2, 3])), rng)
    return plan


def execute(run, plan):
    world = run.world
    world.mkdir('db/UserData')
    if plan['other']:
        world.put('db/other.csv', b'not,touched\n')
        world.put('db/UserData/x.txt', b'400 1.5 0\n500 1.6 0\n')
    config = gen.config(world.path('db'), name='cat.csv')
    sut = run.load()
    cat = run.must('init', lambda: sut.Catalogue(config, rebuild='All'), 'rebuild')
    stored = None
    if plan['first'] is not None:
        run.must('init.t', lambda: cat.set_database(frame_of(plan['first'])), 'set_database')
        run.must('init.s', cat.save_to_file, 'first save')
        stored = plan['first']
    keep = {name: data for name, data in world.tree().items()
            if name != CAT and data is not None}
    for op in plan['ops']:
        run.durable()
        oid = op['id']
        if not run.alive() or (op['fresh'] and stored is not None):
            run.kill('main')
            sut = run.load()
            if stored is not None:
                cat = run.must(oid + '.o', lambda: sut.Catalogue(config), 'opening the catalogue')
            else:
                cat = run.must(oid + '.o', lambda: sut.Catalogue(config, rebuild='All'), 'rebuild')
        new = op['rows']
        set_table(run, cat, op, oid)
        out = run.call(oid, cat.save_to_file)
        run.state(out.kind, [e[1] for e in out.op.events][-1:], [f['err'] for f in out.op.fired], stored is None)
        if out.kind == 'intr' and not out.faulted:
            raise Violation('spurious', 'KeyboardInterrupt out of nowhere')
        outcome_ok_or_fault(out, 'save-failed', 'saving the catalogue')
        stored = judge(run, config, oid, out, stored, new)
        for name, data in keep.items():
            run.check(world.get(name) == data, 'other-file', lambda: 'a save changed %s' % name)
        # faults are over: saving again must store the new version
        if run.alive():
            if not out.ok:
                world.probe('retry in the same session')
            retry = cat
            run.must(oid + '.again', retry.save_to_file, 'saving again after the faults stopped',
                     code='retry-failed')
        else:
            world.probe('restart after a crash')
            sut = run.load()
            if stored is not None:
                cat = run.must(oid + '.ro', lambda: sut.Catalogue(config), 'opening the catalogue after a crash')
            else:
                cat = run.must(oid + '.ro', lambda: sut.Catalogue(config, rebuild='All'), 'rebuild')
            run.must(oid + '.rt', lambda: cat.set_database(frame_of(new)), 'set_database')
            run.must(oid + '.again', cat.save_to_file, 'saving after the restart', code='retry-failed')
        sut2 = run.load() if op['fresh'] else sut
        again = run.must(oid + '.check', lambda: sut2.Catalogue(config), 'opening after the repeated save')
        diff = table_diff(rows_of(again.get_database()), new)
        run.check(diff is None, 'retry-lost', lambda: 'the repeated save did not store the new version: %s' % diff)
        stored = new


def set_table(run, cat, op, oid):
    if op['via'] == 'cells' and cat.get_database().shape[0] == len(op['rows']):
        frame = cat.get_database()
        want = frame_of(op['rows'])
        for col in gen.COLUMNS:
            frame[col] = want[col].values
        return
    run.must(oid + '.t', lambda: cat.set_database(frame_of(op['rows'])), 'set_database')


def judge(run, config, oid, out, old, new):
    data = run.world.get(CAT)
    power = any(f['err'].startswith('power') for f in out.op.fired)
    what = 'after a save that %s with %s' % (out.describe(), [f['err'] for f in out.op.fired])
    if data is None:
        run.check(old is None, 'catalogue-gone', '%s the catalogue file is gone' % what)
        run.check(not out.ok, 'save-lost', '%s there is no catalogue file' % what)
        return None
    sut = run.load()
    res = run.call(oid + '.j', lambda: sut.Catalogue(config), proc='reader')
    run.check(res.ok, 'unreadable', lambda: '%s the stored catalogue cannot be opened: %s; content %r' % (
        what, res.describe(), data[:200]))
    got = rows_of(res.value.get_database())
    is_new = table_diff(got, new) is None
    is_old = old is not None and table_diff(got, old) is None
    run.check(is_new or is_old, 'neither-version', lambda: '%s the stored catalogue is neither the previous nor the '
              'new version: %s' % (what, table_diff(got, new)))
    if out.ok:
        run.check(is_new, 'save-lost', '%s the new version is not stored' % what)
    if is_old and not is_new:
        run.world.probe('old version kept')
    elif not out.ok:
        run.world.probe('new version in place although the save failed')
    if power:
        run.world.probe('power loss judged')
    return new if is_new else old


def simplify(plan):
    for i, op in enumerate(plan['ops']):
        if len(op['rows']) > 1:
            cand = clone(plan)
            cand['ops'][i]['rows'] = op['rows'][:1]
            yield cand
        if op['via'] != 'set':
            cand = clone(plan)
            cand['ops'][i]['via'] = 'set'
            yield cand
    if plan['first'] and len(plan['first']) > 1:
        cand = clone(plan)
        cand['first'] = plan['first'][:1]
        yield cand
