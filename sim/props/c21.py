"""C21: sessions writing, reading and cataloguing the same data files see only complete versions"""
from .. import gen
from .common import *
from .c03 import linearizable

BUDGET = {'quick': 560, 'thorough': 28000}
VARIANTS = {'quick': 6, 'thorough': 14}
SHRINK = ()
FOLDER = 'db/UserData/'
REF = {'Value': 600.0, 'SpectrumType': 'wavelength', 'Unit': 'nanometer'}


def version(rng, number, twins):
    """a material that differs from all others in every value; twins are of the same size"""
    rows = 5 if twins else rng.choice([2, 3, 5, 12, 30])
    number += 10
    n = round(1.1001 + 0.013 * number, 4)
    xs = [400.0 + 500.0 * i / (rows - 1) for i in range(rows)]
    xs = [float('%.6g' % x) for x in xs]
    what = 'nk' if twins else rng.choice(['nk', 'nk', 'n'])
    return {'fmt': 'yml', 'meta': {'Comment': 'version %d' % number, 'Author': 'author %d' % number,
                                   'Reference': 'reference %d %s' % (number, 'x' * (0 if twins else rng.choice([0, 5, 200])))},
            'header': [], 'style': {},
            'parts': [{'kind': 'tab', 'what': what, 'stype': 'wavelength', 'unit': 'nanometer',
                       'rows': [[x, n] + ([round(0.01 * number + 0.001, 4)] if what == 'nk' else []) for x in xs]}]}


def generate(rng, tier):
    names = rng.sample(['a.txt', 'b.csv', 'c.yml', 'd.yml', 'Ünï.txt', 'e.csv'], rng.choice([1, 1, 2, 3]))
    count = 0
    twins = rng.random() < 0.4
    first = {}
    for name in names:
        if rng.random() < 0.75:
            first[name] = version(rng, count, twins)
            count += 1
    sessions = []
    for s in range(rng.choice([2, 2, 3, 3, 4])):
        ops = []
        style = rng.random()
        for i in range(rng.randint(1, 4)):
            do = rng.choice(['write', 'read', 'read', 'rebuild'] if style > 0.3 else ['write'] if style < 0.15 else
                            ['read', 'rebuild', 'reader'])
            op = {'do': do, 'name': rng.choice(names)}
            if do == 'write':
                op['spec'] = version(rng, count, twins)
                op['reuse'] = rng.random() < 0.3
                count += 1
            ops.append(op)
        sessions.append({'id': 'p%d' % s, 'ops': ops})
    knobs = random_knobs(rng)
    knobs['bufsize'] = rng.choice([64, 256, 256, 1024, 8192])
    knobs['read_chunk'] = rng.choice([100, 300, 1000, 1 << 20])
    knobs.pop('encoding', None)
    return {'names': names, 'first': first, 'sessions': sessions, 'knobs': knobs, 'threads': rng.random() < 0.25}


def perturb(plan, res, rng):
    plan = clone(plan)
    plan['preempt'] = place_preempts(res.steps, rng, len(plan['sessions']))
    plan['faults'] = []
    if rng.random() < 0.45:
        errs = ['crash', 'crash', 'crash_after', 'intr', 'eio', 'enospc', 'eacces']
        ops = {e[0] for e in res.trace if e[0].endswith('#write')}
        plan['faults'] = place_faults(res.trace, rng, ops=ops, errs=errs, count=rng.choice([1, 1, 2]))
        for flt in plan['faults']:
            flt.pop('sticky', None)
    return plan


def number_of(comment):
    return int(comment.split(' ')[1])


class Session(object):
    def __init__(self, run, plan, spec, sut, config, all_specs):
        self.run, self.plan, self.spec, self.sut, self.config, self.all = run, plan, spec, sut, config, all_specs
        self.history = []
        self.proc = spec['id'] if not plan['threads'] else 'shared'

    def record(self, kind, name, start, value, sure=True):
        self.history.append({'who': self.spec['id'], 'kind': kind, 'name': name, 'start': start, 'sure': sure,
                             'end': self.run.world.sched.stamp(), 'vid': {value}})

    def body(self):
        run, world = self.run, self.run.world
        for i, op in enumerate(self.spec['ops']):
            if not run.procs[self.proc].alive:
                return
            oid = '%s.%d#%s' % (self.spec['id'], i, op['do'])
            path = world.path(FOLDER + op['name'])
            if op['do'] == 'write':
                number = number_of(op['spec']['meta']['Comment'])
                mat = run.call(oid + '.m', lambda: self.sut.Material(file_path=world.path('src/%d.yml' % number)), proc=self.proc)
                if mat.kind == 'crash':
                    return
                writer = self.sut.Writer(path, mat.value)
                start = world.sched.stamp()
                out = run.call(oid, writer.write_file, proc=self.proc)
                self.record('w', op['name'], start, number, out.ok)
                if not out.ok and not out.faulted and run.procs[self.proc].alive:
                    raise Violation('write-failed', 'session %s: writing %s without any fault in this session: %s' % (
                        self.spec['id'], op['name'], out.describe()))
                if out.kind in ('crash', 'intr'):
                    return
            elif op['do'] == 'rebuild':
                self.rebuild(oid)
            else:
                self.read(oid, op, path)

    def read(self, oid, op, path):
        run, world = self.run, self.run.world
        start = world.sched.stamp()
        if op['do'] == 'reader':
            out = run.call(oid, lambda: self.sut.Reader(path).read_file(), proc=self.proc)
        else:
            out = run.call(oid, lambda: self.sut.Material(file_path=path), proc=self.proc)
        if out.kind == 'crash':
            return
        if not out.ok:
            if isinstance(out.exc, FileNotFoundError):
                self.record('r', op['name'], start, None)
                return
            raise Violation('read-failed', 'session %s: reading %s: %s' % (self.spec['id'], op['name'], out.describe()))
        meta = out.value['MetaData'] if op['do'] == 'reader' else out.value.meta_data
        number, spec = self.known(meta['Comment'], op['name'])
        for key in ('Author', 'Reference'):
            run.check(meta[key] == spec['meta'][key], 'mixed-version', lambda: 'session %s read %s of another version: %r' % (
                self.spec['id'], key, meta[key]))
        if op['do'] != 'reader':
            self.values(out.value, number, spec, op['name'])
        self.record('r', op['name'], start, number)

    def known(self, comment, name):
        for number, spec in self.all.items():
            if comment == 'version %d' % number:
                return number, spec
        raise Violation('incomplete-version', 'session %s got %s with the comment %r that nobody wrote' % (
            self.spec['id'], name, comment))

    def values(self, mat, number, spec, name):
        meaning = rm.Meaning(spec, 'wavelength', 'nm')
        run = self.run
        ends = sorted(rm.to_metre(float(v), mat.defaults['spectrum_type'], mat.defaults['unit'])
                      for v in mat.get_maximum_valid_range())
        run.check(all(same_num(a, b, 1e-6) for a, b in zip(ends, meaning.range_m())), 'mixed-version', lambda: 'session %s '
                  'read %s with version %d, but the range %r' % (self.spec['id'], name, number, ends))
        for row in spec['parts'][0]['rows']:
            lam = row[0] * 1e-9
            got = complex(mat.get_nk_data(lam))
            run.check(rm.close(got, complex(*(row[1:] + [0.0])[:2])), 'mixed-version', lambda: 'session %s read %s with version '
                      '%d, but n,k at %r nm is %r' % (self.spec['id'], name, number, row[0], got))

    def rebuild(self, oid):
        run, world = self.run, self.run.world
        start = world.sched.stamp()
        out = run.call(oid, lambda: self.sut.Catalogue(clone(self.config), rebuild='All'), proc=self.proc)
        if out.kind == 'crash':
            return
        if not out.ok:
            raise Violation('rebuild-failed', 'session %s: a rebuild while files are written: %s' % (
                self.spec['id'], out.describe()))
        rows = rows_of(out.value.get_database())
        paths = [r['Path'] for r in rows]
        run.check(len(set(paths)) == len(paths) and set(paths) <= set(self.plan['names']), 'listed', lambda: 'a rebuild while '
                  'files are written lists %r' % paths)
        for name in self.plan['names']:
            if name not in paths:
                self.record('r', name, start, None)
                continue
            row = rows[paths.index(name)]
            number, spec = self.known(row['Comment'], name)
            diff = expected_diff(row, file_row('UserData', name, spec, REF))
            run.check(diff is None, 'mixed-version', lambda: 'the row of %s has version %d, but %s' % (name, number, diff))
            self.record('r', name, start, number)


def execute(run, plan):
    world = run.world
    world.mkdir('db/UserData')
    specs = {}
    for spec in list(plan['first'].values()) + [op['spec'] for s in plan['sessions'] for op in s['ops'] if op['do'] == 'write']:
        number = number_of(spec['meta']['Comment'])
        specs[number] = spec
        world.put('src/%d.yml' % number, rm.render(spec))
    sut = run.load()
    for name, spec in plan['first'].items():
        path = world.path('src/%d.yml' % number_of(spec['meta']['Comment']))
        run.must('init.' + name, lambda: sut.Writer(world.path(FOLDER + name), sut.Material(file_path=path)).write_file(), 'writing')
    config = gen.config(world.path('db'), name='cat.csv', ref=REF)
    sessions = []
    for spec in plan['sessions']:
        if not plan['threads']:
            sut = run.load()
        sessions.append(Session(run, plan, spec, sut, config, specs))
        run.proc(sessions[-1].proc)
    run.concurrently([s.body for s in sessions])
    history = sorted((h for s in sessions for h in s.history), key=lambda h: h['start'])
    # afterwards a new session sees the last version of each file
    final = Session(run, dict(plan, threads=False), {'id': 'final', 'ops': []}, run.load(), config, specs)
    run.proc('final')
    ops = [{'do': 'read', 'name': name} for name in plan['names']]

    def last():
        for i, op in enumerate(ops):
            final.read('final.%d' % i, op, world.path(FOLDER + op['name']))
        final.rebuild('final.rebuild')
    stamp = max([h['end'] for h in history] + [0])
    run_order = run.last_sched
    run.concurrently([last])
    for item in final.history:
        item['start'] += stamp + 1
        item['end'] += stamp + 1
    run.last_sched = run_order
    for name in plan['names']:
        items = [h for h in history + final.history if h['name'] == name]
        begin = number_of(plan['first'][name]['meta']['Comment']) if name in plan['first'] else None
        ids = {begin: 0}
        for h in items:
            ids.setdefault(next(iter(h['vid'])), len(ids))
        items = [dict(h, vid={ids[next(iter(h['vid']))]}) for h in items]
        run.check(linearizable(items), 'not-atomic', lambda: 'no order of the overlapping reads and writes of %s explains: %s' % (
            name, '; '.join('%s %s v%s [%d,%d]%s' % (h['who'], 'writes' if h['kind'] == 'w' else 'reads', sorted(h['vid']),
                                                     h['start'], h['end'], '' if h['sure'] else ' (failed)') for h in items)))
        for h in items:
            if h['kind'] == 'r' and h['who'] != 'final':
                run.world.probe('no file yet' if begin is None and h['vid'] == {0} else 'first version' if h['vid'] == {0}
                                else 'new version')
    run.state([(h['who'], h['kind'], h['name'], sorted(h['vid'], key=str)) for h in history], run.last_sched.switches > 0)


def simplify(plan):
    for i, ses in enumerate(plan['sessions']):
        if len(plan['sessions']) > 1:
            cand = clone(plan)
            del cand['sessions'][i]
            yield cand
        for j in range(len(ses['ops'])):
            cand = clone(plan)
            del cand['sessions'][i]['ops'][j]
            yield cand
