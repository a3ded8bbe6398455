"""C01: a saved catalogue reopens identical, whatever the history"""
from .. import gen
from .common import *

BUDGET = {'quick': 640, 'thorough': 24000}
VARIANTS = {'quick': 3, 'thorough': 5}
CALLS = 0.3
SHRINK = ('ops',)


def generate(rng, tier):
    size = rng.choice([0, 1, 2, 3, 5, 8, 20]) if rng.random() < 0.93 else rng.choice([60, 60, 300, 300, 3000])
    files = {}
    for _ in range(rng.randint(0, 4)):
        spec = gen.spec(rng, fmt=rng.choice(['txt', 'csv']), simple=True)
        files[gen.file_name(rng, files, spec['fmt'])] = spec
    ops, n = [], 0
    kinds = ['save', 'save', 'save', 'table', 'cell', 'alias', 'alias', 'reopen', 'restart', 'rebuild', 'filter',
             'sort', 'badalias', 'append', 'tick', 'partial', 'openfail', 'savefail',
             'undo', 'undo', 'other', 'twice']
    ops.append({'id': 'o0', 'do': 'table', 'rows': gen.catalogue_rows(rng, size)} if rng.random() < 0.7 else
               {'id': 'o0', 'do': 'rebuild'})
    ops.append({'id': 'o1', 'do': 'save'})
    for i in range(rng.randint(1, 9)):
        do = rng.choice(kinds)
        op = {'id': 'o%d' % (i + 2), 'do': do}
        if do == 'table':
            op['rows'] = gen.catalogue_rows(rng, rng.choice([0, 1, 2, 4]))
        elif do == 'cell':
            col = rng.choice(gen.COLUMNS[:6] + gen.COLUMNS[8:13])
            op.update(row=rng.randrange(100), col=col,
                      value=rng.choice([None, gen.double(rng)])
                      if col in gen.NUMERIC else gen.text(rng, multiline=True))
        elif do in ('alias', 'badalias'):
            op.update(row=rng.randrange(100), alias='al %d %s' % (i, gen.text(rng, multiline=True)))
        elif do == 'filter':
            op['mask'] = rng.randrange(1 << 16)
        elif do == 'sort':
            op.update(col=rng.choice(gen.COLUMNS), desc=rng.random() < 0.5)
        elif do == 'append':
            op['rows'] = gen.catalogue_rows(rng, rng.randint(1, 3))
        elif do in ('undo', 'other', 'twice'):
            op.update(row=rng.randrange(100), alias='oth %d' % i, resave=rng.random() < 0.8)
        elif do == 'tick':
            op['dt'] = rng.choice([0.1, 1, 3600, -50, 86400 * 400])
        ops.append(op)
    ops.append({'id': 'last', 'do': 'save'})
    return {'files': files, 'ops': ops, 'knobs': random_knobs(rng, small=size < 50),
            'name': rng.choice(['catalogue.csv', 'catalogue.csv', 'my cat.csv', 'kat.txt', 'Käse.csv'])}


def perturb(plan, res, rng):
    plan = clone(plan)
    plan['knobs'] = random_knobs(rng)
    ops = [op['id'] for op in plan['ops'] if op['do'] in ('openfail', 'savefail', 'save')]
    errs = ['eio', 'enospc', 'eacces', 'emfile', 'intr', 'edquot', 'erofs', 'estale', 'crash']
    targets = {op['id'] + '.f' for op in plan['ops'] if op['do'] in ('openfail', 'savefail')}
    plan['faults'] = place_faults(res.trace, rng, ops=targets, errs=errs, count=rng.randint(1, 3))
    if not plan['faults'] and rng.random() < 0.6:
        return None
    return plan


class Session(object):
    def __init__(self, run, plan):
        self.run, self.plan = run, plan
        self.sut = None
        self.cat = None
        self.mem = None
        self.stored = None
        self.past = []          # tables this session held: (frame, rows)

    def remember(self):
        if self.cat is not None and self.mem is not None:
            self.past = (self.past + [(self.cat.get_database().copy(), [dict(r) for r in self.mem])])[-4:]

    def config(self):
        return gen.config(self.run.world.path('db'), name=self.plan['name'],
                          modules={'UserData': True, 'RefractiveIndexInfo': False})

    def start(self):
        self.sut = self.run.load()
        self.cat = None
        self.past = []

    def reopen(self, op_id):
        cat = self.run.must(op_id, lambda: self.sut.Catalogue(self.config()), 'opening the saved catalogue')
        got = rows_of(cat.get_database())
        diff = table_diff(got, self.stored)
        self.run.check(diff is None, 'reopened-differs', lambda: 'catalogue opened after a save: %s' % diff)
        self.run.state('reopen', len(got), len(str(got)))
        return cat


def execute(run, plan):
    world = run.world
    world.mkdir('db/UserData')
    world.mkdir('db/RefractiveIndexInfo')
    write_files(run, plan['files'])
    ses = Session(run, plan)
    ses.start()
    for op in plan['ops']:
        do, oid = op['do'], op['id']
        if not run.alive() and run.procs:
            ses.start()
        if ses.cat is None and do not in ('table', 'rebuild', 'tick'):
            if ses.stored is None:
                continue
            ses.cat = ses.reopen(oid + '.o')
            ses.mem = [dict(r) for r in ses.stored]
            ses.past = []
            ses.remember()
        if do == 'rebuild' or (do == 'table' and ses.cat is None):
            ses.cat = run.must(oid, lambda: ses.sut.Catalogue(ses.config(), rebuild='All'), 'rebuild')
            ses.mem = rows_of(ses.cat.get_database())
        if do == 'table':
            frame = frame_of(op['rows'])
            run.must(oid + '.t', lambda: ses.cat.set_database(frame), 'set_database')
            ses.mem = clone(op['rows'])
        elif do == 'partial':
            if ses.stored is None:
                continue
            ses.cat = run.must(oid, lambda: ses.sut.Catalogue(ses.config(), rebuild='UserData'), 'partial rebuild')
            ses.mem = rows_of(ses.cat.get_database())
        elif do == 'save':
            save(run, ses, oid)
        elif do == 'twice':
            save(run, ses, oid)
            save(run, ses, oid + '.2')
        elif do == 'undo' and ses.past:
            frame, rows = ses.past[op['row'] % len(ses.past)]
            run.must(oid + '.t', lambda: ses.cat.set_database(frame.copy()), 'set_database')
            ses.mem = [dict(r) for r in rows]
            if op['resave']:
                save(run, ses, oid)
        elif do == 'other' and ses.stored:
            # another session saves its own version, then this one its own again
            sut = run.load()
            cat = run.must(oid + '.p', lambda: sut.Catalogue(ses.config()), 'opening the catalogue', proc='other')
            row = op['row'] % len(ses.stored)
            if any(r['Alias'] == op['alias'] for r in ses.stored):
                continue
            run.must(oid + '.q', lambda: cat.register_alias(row, op['alias']), 'registering a new alias', proc='other')
            run.must(oid + '.s', cat.save_to_file, 'saving the catalogue', proc='other')
            ses.stored = [dict(r) for r in ses.stored]
            ses.stored[row]['Alias'] = op['alias']
            keep, ses.sut = ses.sut, run.load()
            ses.reopen(oid + '.r')
            ses.sut = keep
            if op['resave']:
                save(run, ses, oid)
        elif do == 'cell' and ses.mem:
            import numpy as np
            row = op['row'] % len(ses.mem)
            frame = ses.cat.get_database()
            value = op['value']
            if op['col'] in gen.NUMERIC:
                value = np.nan if value is None else value
            frame.iloc[row, list(frame.columns).index(op['col'])] = value
            ses.mem[row] = dict(ses.mem[row])
            ses.mem[row][op['col']] = op['value']
        elif do == 'alias' and ses.mem:
            row = op['row'] % len(ses.mem)
            if any(r['Alias'] == op['alias'] for r in ses.mem):
                continue
            run.must(oid, lambda: ses.cat.register_alias(row, op['alias']), 'registering a new alias')
            ses.mem[row] = dict(ses.mem[row], Alias=op['alias'])
        elif do == 'badalias' and len(ses.mem or ()) > 1:
            used = [r['Alias'] for r in ses.mem if r['Alias']]
            if not used:
                continue
            row = op['row'] % len(ses.mem)
            if ses.mem[row]['Alias'] == used[0]:
                continue
            out = run.call(oid, lambda: ses.cat.register_alias(row, used[0]))
            run.check(out.kind == 'error', 'alias-accepted', 'an alias in use was registered again')
        elif do == 'filter' and ses.mem:
            frame = ses.cat.get_database()
            keep = [bool(op['mask'] >> (i % 16) & 1) for i in range(len(ses.mem))]
            run.must(oid, lambda: ses.cat.set_database(frame[keep]), 'set_database')
            ses.mem = [r for r, k in zip(ses.mem, keep) if k]
        elif do == 'sort' and ses.mem:
            frame = ses.cat.get_database()
            order = sorted(range(len(ses.mem)), key=lambda i: str(ses.mem[i][op['col']]), reverse=op['desc'])
            run.must(oid, lambda: ses.cat.set_database(frame.iloc[order]), 'set_database')
            ses.mem = [ses.mem[i] for i in order]
        elif do == 'append':
            import pandas as pd
            frame = pd.concat([ses.cat.get_database(), frame_of(op['rows'])])
            run.must(oid, lambda: ses.cat.set_database(frame), 'set_database')
            ses.mem = list(ses.mem) + clone(op['rows'])
        elif do == 'tick':
            world.clock += op['dt']
        elif do == 'restart':
            run.kill('main')
            ses.start()
        elif do == 'reopen':
            ses.cat = ses.reopen(oid)
            ses.mem = [dict(r) for r in ses.stored]
            ses.past = []
            ses.remember()
        elif do == 'openfail':
            out = run.call(oid + '.f', lambda: ses.sut.Catalogue(ses.config()))
            outcome_ok_or_fault(out, 'open-failed', 'opening the catalogue')
            if out.ok:
                diff = table_diff(rows_of(out.value.get_database()), ses.stored)
                run.check(diff is None, 'faulty-open-differs',
                          lambda: 'an open during I/O errors returned another table: %s' % diff)
        elif do == 'savefail':
            new = ses.mem
            out = run.call(oid + '.f', lambda: ses.cat.save_to_file())
            outcome_ok_or_fault(out, 'save-failed', 'saving the catalogue')
            after_fault(run, ses, oid, out, new)


def save(run, ses, oid):
    before = rows_of(ses.cat.get_database())
    diff = table_diff(before, ses.mem)
    run.check(diff is None, 'session-table-changed', lambda: 'table of the session before a save: %s' % diff)
    run.must(oid, lambda: ses.cat.save_to_file(), 'saving the catalogue')
    diff = table_diff(rows_of(ses.cat.get_database()), ses.mem)
    run.check(diff is None, 'save-changed-table', lambda: 'table of the session after a save: %s' % diff)
    ses.stored = [dict(r) for r in ses.mem]
    ses.remember()
    keep = ses.sut
    ses.sut = run.load()            # a later session
    ses.reopen(oid + '.r')
    ses.sut = keep


def after_fault(run, ses, oid, out, new):
    """a save that met a fault: old or new, as the outcome says"""
    sut = run.load()
    cat = run.must(oid + '.a', lambda: sut.Catalogue(ses.config()), 'opening the catalogue after a failed save',
                   proc='other')
    got = rows_of(cat.get_database())
    is_new = table_diff(got, new) is None
    is_old = table_diff(got, ses.stored) is None
    run.check(is_new or is_old, 'neither-version', lambda: 'after a save that %s the catalogue is neither the old '
              'nor the new version: %s' % (out.describe(), table_diff(got, new)))
    if out.ok:
        run.check(is_new, 'save-lost', 'a save returned but the new version is not stored')
    if is_new:
        ses.stored = [dict(r) for r in new]


def simplify(plan):
    for i, op in enumerate(plan['ops']):
        if op.get('rows'):
            for cut in (op['rows'][:1], op['rows'][:len(op['rows']) // 2], op['rows'][1:]):
                if len(cut) < len(op['rows']):
                    cand = clone(plan)
                    cand['ops'][i]['rows'] = cut
                    yield cand
            for j, row in enumerate(op['rows'][:3]):
                for col in TEXT:
                    if row[col] not in ('', 'a', 'UserData', 'wavelength', 'nanometer'):
                        cand = clone(plan)
                        cand['ops'][i]['rows'][j][col] = 'a' if col not in ('Alias',) else ''
                        yield cand
                for col in gen.NUMERIC:
                    if row[col] != 1.5:
                        cand = clone(plan)
                        cand['ops'][i]['rows'][j][col] = 1.5
                        yield cand
    for name in plan['files']:
        cand = clone(plan)
        del cand['files'][name]
        yield cand
