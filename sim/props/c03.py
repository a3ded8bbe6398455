"""C03: sessions sharing one catalogue see only complete saved versions"""
from .. import gen
from .common import *

BUDGET = {'quick': 720, 'thorough': 20000}
VARIANTS = {'quick': 6, 'thorough': 14}
SHRINK = ()
CAT = 'db/cat.csv'


def generate(rng, tier):
    count = rng.choice([2, 2, 3, 3, 4])
    # versions that differ in nothing but their mark (same size, same number of rows)
    twin = _version(rng, 's9.9') if rng.random() < 0.4 else None

    def version(rng, tag, make=_version):
        if twin is None:
            return make(rng, tag)
        return [dict(row, Comment='version ' + tag) for row in twin]

    sessions = []
    for s in range(count):
        ops = []
        style = rng.random()
        for i in range(rng.randint(1, 5)):
            if style < 0.2:
                do = 'open'
            elif style < 0.4:
                do = rng.choice(['save', 'save', 'edit'])
            else:
                do = rng.choice(['open', 'open', 'save', 'save', 'alias', 'edit', 'partial', 'look'])
            op = {'do': do}
            if do in ('save', 'edit'):
                op['rows'] = version(rng, 's%d.%d' % (s, i))
                op['fresh'] = rng.random() < 0.7
            if do == 'alias':
                op['alias'] = 'al-%d-%d' % (s, i)
                op['row'] = rng.randrange(9)
            ops.append(op)
        sessions.append({'id': 'p%d' % s, 'ops': ops})
    knobs = random_knobs(rng)
    knobs['bufsize'] = rng.choice([64, 256, 256, 1024, 8192])
    knobs['read_chunk'] = rng.choice([100, 300, 1000, 1 << 20])
    return {'sessions': sessions, 'first': version(rng, 's0.x'), 'knobs': knobs, 'threads': rng.random() < 0.25,
            'files': {'u%d.txt' % i: gen.spec(rng, fmt='txt', simple=True) for i in range(rng.randint(0, 2))}}


def _version(rng, tag):
    rows = gen.catalogue_rows(rng, rng.choice([1, 2, 3, 3, 5, 9]), aliases=False)
    for row in rows:
        row['Comment'] = 'version ' + tag
        row['Module'] = rng.choice(['Filmetrics', 'UserData'])
        for col in ('Name', 'FullName', 'Author', 'Reference'):
            if len(row[col]) > 60:
                row[col] = row[col][:60]
    rows[0]['Module'] = 'Filmetrics'
    return rows


def perturb(plan, res, rng):
    plan = clone(plan)
    plan['preempt'] = place_preempts(res.steps, rng, len(plan['sessions']))
    plan['faults'] = []
    if rng.random() < 0.45:
        errs = ['crash', 'crash', 'crash_after', 'intr', 'eio', 'enospc', 'eacces']
        ops = {e[0] for e in res.trace if e[0].endswith('#save')}
        plan['faults'] = place_faults(res.trace, rng, ops=ops, errs=errs, count=rng.choice([1, 1, 2]))
        for flt in plan['faults']:
            flt.pop('sticky', None)
    return plan


class Session(object):
    def __init__(self, run, plan, spec, sut, config):
        self.run, self.spec, self.sut, self.config = run, spec, sut, config
        self.cat = None
        self.mem = None
        self.history = []
        self.proc = spec['id'] if not plan['threads'] else 'shared'
        self.dead = False

    def record(self, kind, start, value, sure):
        self.history.append({'who': self.spec['id'], 'kind': kind, 'start': start, 'value': value, 'sure': sure,
                             'end': self.run.world.sched.stamp()})

    def body(self):
        run, world = self.run, self.run.world
        for i, op in enumerate(self.spec['ops']):
            if not run.procs[self.proc].alive:
                return
            oid = '%s.%d#%s' % (self.spec['id'], i, op['do'])
            do = op['do']
            if self.cat is None and do not in ('open', 'partial'):
                self.open(oid + '.first')
                if self.cat is None:
                    return
            if do == 'open':
                self.open(oid)
            elif do == 'partial':
                self.open(oid, partial=True)
            elif do == 'look':
                self.look()
            elif do in ('save', 'edit'):
                if op['fresh'] or do == 'edit':
                    self.cat.set_database(frame_of(op['rows']))
                    self.mem = op['rows']
                if do == 'save':
                    start = world.sched.stamp()
                    value = [dict(r) for r in self.mem]
                    out = run.call(oid, self.cat.save_to_file, proc=self.proc)
                    self.record('w', start, value, out.ok)
                    if not out.ok and not out.faulted and run.procs[self.proc].alive:
                        raise Violation('save-failed', 'session %s: saving without any fault in this session: %s' % (
                            self.spec['id'], out.describe()))
                    if out.kind in ('crash', 'intr'):
                        return
            elif do == 'alias' and self.mem:
                row = op['row'] % len(self.mem)
                if any(r['Alias'] == op['alias'] for r in self.mem):
                    continue
                out = run.call(oid, lambda: self.cat.register_alias(row, op['alias']), proc=self.proc)
                if out.kind == 'crash':
                    return
                if not out.ok:
                    raise Violation('alias-failed', 'registering a new alias: %s' % out.describe())
                self.mem = [dict(r) for r in self.mem]
                self.mem[row]['Alias'] = op['alias']
            self.look()

    def look(self):
        if self.cat is None or not self.run.procs[self.proc].alive:
            return
        diff = table_diff(rows_of(self.cat.get_database()), self.mem)
        self.run.check(diff is None, 'session-disturbed', lambda: 'the table session %s holds changed by itself: %s' % (
            self.spec['id'], diff))

    def open(self, oid, partial=False):
        run, world = self.run, self.run.world
        start = world.sched.stamp()
        if partial:
            out = run.call(oid, lambda: self.sut.Catalogue(self.config, rebuild='UserData'), proc=self.proc)
        else:
            out = run.call(oid, lambda: self.sut.Catalogue(self.config), proc=self.proc)
        if out.kind == 'crash':
            return
        if not out.ok:
            raise Violation('open-failed', 'session %s: opening the shared catalogue: %s' % (
                self.spec['id'], out.describe()))
        rows = rows_of(out.value.get_database())
        if partial:
            self.record('p', start, [r for r in rows if r['Module'] == 'Filmetrics'], True)
        else:
            self.record('r', start, rows, True)
        self.cat, self.mem = out.value, rows


def execute(run, plan):
    world = run.world
    world.mkdir('db/UserData')
    world.mkdir('db/Filmetrics')
    write_files(run, plan['files'])
    config = gen.config(world.path('db'), name='cat.csv', modules={'UserData': True, 'Filmetrics': True})
    sut = run.load()
    cat = run.must('init', lambda: sut.Catalogue(config, rebuild='All'), 'rebuild')
    run.must('init.t', lambda: cat.set_database(frame_of(plan['first'])), 'set_database')
    run.must('init.s', cat.save_to_file, 'first save')
    sessions = []
    for spec in plan['sessions']:
        if not plan['threads']:
            sut = run.load()
        sessions.append(Session(run, plan, spec, sut, config))
        run.proc(sessions[-1].proc)
    run.concurrently([s.body for s in sessions])
    history = sorted((h for s in sessions for h in s.history), key=lambda h: h['start'])
    # afterwards a new session sees the register's value, too
    sut = run.load()
    cat = run.must('final', lambda: sut.Catalogue(config), 'opening the catalogue at the end', proc='final')
    last = max([h['end'] for h in history] + [0])
    history.append({'who': 'final', 'kind': 'r', 'start': last + 1, 'end': last + 2, 'sure': True,
                    'value': rows_of(cat.get_database())})
    judge(run, history, plan['first'])
    run.state([(h['who'], h['kind'], h['vid']) for h in history], run.last_sched.switches > 0)
    for ses in sessions:
        if ses.cat is not None and run.alive(ses.proc):
            ses.look()


def judge(run, history, first):
    """the history linearizes to an atomic register holding complete versions"""
    versions = [first]
    for item in history:
        if item['kind'] == 'w':
            for vid, rows in enumerate(versions):
                if table_diff(item['value'], rows) is None:
                    break
            else:
                versions.append(item['value'])
                vid = len(versions) - 1
            item['vid'] = {vid}
    film = [[r for r in rows if r['Module'] == 'Filmetrics'] for rows in versions]
    for item in history:
        if item['kind'] != 'w':
            known = versions if item['kind'] == 'r' else film
            fits = {vid for vid, rows in enumerate(known) if table_diff(item['value'], rows) is None}
            run.check(fits, 'incomplete-version', lambda: 'session %s opened %d rows that no session saved: %r' % (
                item['who'], len(item['value']), [r['Comment'] for r in item['value']][:6]))
            item['vid'] = fits
            if item['start'] < item['end'] and len(versions) > 1:
                run.world.probe('open of %s version' % ('initial' if fits == {0} else 'saved'))
    text = lambda: 'no order of the overlapping opens and saves explains: ' + '; '.join(
        '%s %s %s [%d,%d]%s' % (h['who'], {'w': 'saves', 'r': 'opens', 'p': 'opens (partial rebuild)'}[h['kind']],
                                'v%s' % sorted(h['vid']), h['start'], h['end'], '' if h['sure'] else ' (failed)')
        for h in history)
    run.check(linearizable(history), 'not-atomic', text)


def linearizable(history):
    """backtracking search with memory (Wing and Gong)"""
    items = list(history)
    n = len(items)
    seen = set()

    def search(done, value):
        if all(done >> i & 1 or not items[i]['sure'] for i in range(n)):
            return True
        if (done, value) in seen:
            return False
        seen.add((done, value))
        # failed saves may never take effect, so they do not hold back others
        bound = min(items[i]['end'] for i in range(n) if not done >> i & 1 and items[i]['sure'])
        for i in range(n):
            item = items[i]
            if done >> i & 1 or item['start'] > bound:
                continue
            if item['kind'] == 'w':
                # a failed save can only take effect before it failed
                if not item['sure'] and any(done >> j & 1 and items[j]['start'] > item['end'] for j in range(n)):
                    continue
                if search(done | 1 << i, next(iter(item['vid']))):
                    return True
            elif value in item['vid']:
                if search(done | 1 << i, value):
                    return True
        return False

    return search(0, 0)


def simplify(plan):
    for i, ses in enumerate(plan['sessions']):
        if len(plan['sessions']) > 1:
            cand = clone(plan)
            del cand['sessions'][i]
            yield cand
        for j in range(len(ses['ops'])):
            cand = clone(plan)
            del cand['sessions'][i]['ops'][j]
            yield cand
    if plan['files']:
        cand = clone(plan)
        cand['files'] = {}
        yield cand
