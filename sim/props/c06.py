"""C06: aliases stay unique and always lead to the row they were given to"""
from .. import gen
from .common import *

BUDGET = {'quick': 3200, 'thorough': 60000}
VARIANTS = {'quick': 2, 'thorough': 4}
SHRINK = ('ops',)
ALIASES = ['Ag', 'ag', 'Ag ', ' Ag', 'A', 'Ag2', 'Ag.', 'A*', '007', '7', '1e5', 'nan', 'NA', 'None', 'True', '0', '1',
           '銀', 'Müller', 'a,b', '"q"', "it's", 'x\ny', 'null', '-1', '1.0', 'Name', 'Alias', 'UserData']


def generate(rng, tier):
    count = rng.randint(1, 7)
    mats = []
    for i in range(count):
        mats.append({'module': rng.choice(['UserData', 'UserData', 'Filmetrics']), 'deep': rng.random() < 0.15,
                     'name': 'm%d' % i, 'alias': '', 'ext': rng.choice(['txt', 'csv', 'yml'])})
    ops = []
    kinds = ['reg', 'reg', 'reg', 'sel', 'sel', 'sel', 'taken', 'taken', 'own', 'get', 'get', 'filter', 'sort', 'append',
             'reset', 'save', 'save', 'reopen', 'restart', 'unknown', 'badrow', 'badsel', 'partial', 'rename', 'savefail']
    for i in range(rng.randint(3, 14)):
        do = rng.choice(kinds)
        op = {'id': 'o%d' % i, 'do': do, 'row': rng.randrange(50), 'alias': rng.choice(ALIASES)
              if rng.random() < 0.8 else gen.text(rng, multiline=True) or 'empty'}
        if do == 'filter':
            op['mask'] = rng.randrange(1, 1 << 10)
        elif do == 'sort':
            op.update(col=rng.choice(['Name', 'Path', 'N_Reference', 'Alias']), desc=rng.random() < 0.5,
                      inplace=rng.random() < 0.4)
        elif do == 'append':
            op['rows'] = [rng.randrange(count) for _ in range(rng.randint(1, 2))]
            op['keep'] = rng.random() < 0.6     # index labels repeat
        elif do == 'sel':
            op['how'] = rng.choice(['mask', 'slice', 'loc', 'copy'])
        elif do == 'badsel':
            op['count'] = rng.choice([0, 2, 2, 3])
        ops.append(op)
    return {'mats': mats, 'ops': ops, 'knobs': random_knobs(rng), 'built': rng.random() < 0.5}


def perturb(plan, res, rng):
    plan = clone(plan)
    targets = {op['id'] + '.f' for op in plan['ops'] if op['do'] == 'savefail'}
    if not targets:
        return None
    plan['faults'] = place_faults(res.trace, rng, ops=targets, errs=[
        'eio', 'enospc', 'eacces', 'emfile', 'intr', 'crash', 'crash_after', 'erofs', 'mem'], count=rng.randint(1, 2))
    return plan


def signature(index):
    return 1.0 + 0.0137 * (index + 1)


class State(object):
    pass


def path_of(mat):
    return ('sub/' if mat['deep'] else '') + mat['name'] + '.' + mat['ext']


def execute(run, plan):
    world = run.world
    for module in ('UserData', 'Filmetrics'):
        world.mkdir('db/' + module)
    for i, mat in enumerate(plan['mats']):
        n = signature(i)
        spec = {'fmt': mat['ext'], 'meta': {'Comment': 'c%d' % i}, 'header': [], 'style': {},
                'parts': [{'kind': 'tab', 'what': 'nk', 'stype': 'wavelength', 'unit': 'nanometer',
                           'rows': [[300, n, 0.5], [900, n, 0.5]]}]}
        world.put('db/%s/%s' % (mat['module'], path_of(mat)), rm.render(spec))
    st = State()
    st.config = gen.config(world.path('db'), modules={'UserData': True, 'Filmetrics': True}, name='c.csv')
    st.sut = run.load()
    st.cat = run.must('init', lambda: st.sut.Catalogue(st.config, rebuild='All'), 'rebuild')
    if plan['built']:
        st.mem = rows_of(st.cat.get_database())
    else:
        st.mem = [make_row(plan, i) for i in range(len(plan['mats']))]
        run.must('init.t', lambda: st.cat.set_database(frame_of(st.mem)), 'set_database')
    st.stored = None
    for op in plan['ops']:
        if not run.alive():
            reopen(run, st, op['id'] + '.o')
        step(run, plan, st, op)
        if run.alive():
            look(run, st, 'after %s' % op['do'])
    if run.alive():
        check_all(run, plan, st, 'end')


def make_row(plan, index):
    mat = plan['mats'][index]
    path = path_of(mat)
    return {'Alias': '', 'Name': mat['name'], 'FullName': 'full %d' % index, 'Author': '', 'Comment': 'c%d' % index,
            'Reference': '', 'SpectrumType': 'wavelength', 'Unit': 'nanometer', 'SpectrumLowerBound': 300.0,
            'SpectrumUpperBound': 900.0, 'N_Reference': signature(index), 'K_Reference': 0.5,
            'Path': path.replace('/', '\\') if index % 2 else path, 'Module': mat['module']}


def look(run, st, when):
    got = rows_of(st.cat.get_database())
    diff = table_diff(got, st.mem)
    run.check(diff is None, 'table-changed', lambda: '%s: %s' % (when, diff))
    used = [r['Alias'] for r in got if r['Alias']]
    run.check(len(used) == len(set(used)), 'alias-twice', lambda: '%s: an alias is held by two rows: %r' % (when, used))


def reopen(run, st, oid):
    if not run.alive():
        st.sut = run.load()
    if st.stored is None:
        st.cat = run.must(oid, lambda: st.sut.Catalogue(st.config, rebuild='All'), 'rebuild')
        st.mem = rows_of(st.cat.get_database())
    else:
        st.cat = run.must(oid, lambda: st.sut.Catalogue(st.config), 'opening')
        st.mem = [dict(r) for r in st.stored]


def want_of(row):
    return signature(int(row['Name'][1:]))


def fetch(run, st, oid, ident, row, what):
    out = run.call(oid, lambda: st.cat.get_material(ident).get_nk_data(5e-7))
    run.check(out.ok, 'not-found', lambda: 'material by %s: %s' % (what, out.describe()))
    got = complex(out.value)
    run.check(abs(got - complex(want_of(row), 0.5)) < 1e-6, 'wrong-material', lambda: 'material by %s is %r instead of '
              '%s (%r)' % (what, got, row['Name'], want_of(row)))


def check_all(run, plan, st, oid):
    for i, row in enumerate(st.mem):
        fetch(run, st, '%s.n%d' % (oid, i), i, row, 'row number %d' % i)
        if row['Alias']:
            fetch(run, st, '%s.a%d' % (oid, i), row['Alias'], row, 'alias %r' % row['Alias'])


def step(run, plan, st, op):
    import pandas as pd
    do, oid, alias = op['do'], op['id'], op['alias']
    mem = st.mem
    row = op['row'] % len(mem) if mem else None
    holder = [i for i, r in enumerate(mem) if r['Alias'] == alias]
    if do in ('reg', 'sel', 'rename', 'own', 'taken') and mem:
        if do == 'own':
            if not mem[row]['Alias']:
                return
            alias = mem[row]['Alias']
            holder = [row]
        if do == 'taken':
            used = [i for i, r in enumerate(mem) if r['Alias'] and i != row]
            if not used:
                return
            holder = [used[op['row'] % len(used)]]
            alias = mem[holder[0]]['Alias']
        frame = st.cat.get_database()
        labels = list(frame.index)
        clear = labels.count(labels[row]) == 1
        if do == 'sel' or (do in ('own', 'taken') and op['row'] % 2):
            how = op.get('how', 'slice')
            ident = frame.iloc[row:row + 1]
            if how == 'mask':
                ident = frame[[i == row for i in range(len(mem))]]
            elif how == 'loc' and clear:
                ident = frame.loc[[labels[row]]]
            elif how == 'copy':
                ident = ident.copy()
        else:
            ident, clear = row, True
        out = run.call(oid, lambda: st.cat.register_alias(ident, alias))
        if holder and holder != [row]:
            run.check(not out.ok, 'alias-accepted', lambda: 'alias %r of row %d was registered for row %d, too' % (
                alias, holder[0], row))
            run.world.probe('registration refused')
        elif not out.ok:
            run.check(not clear, 'alias-refused', lambda: 'registering the free alias %r for row %d: %s' % (
                alias, row, out.describe()))
            run.world.probe('ambiguous selection refused')
        else:
            st.mem = [dict(r) for r in mem]
            st.mem[row]['Alias'] = alias
        run.state(do, len(mem), out.kind, clear, len(holder))
        return
    if do == 'get':
        check_all(run, plan, st, oid)
    elif do == 'unknown':
        for name in (alias, alias + 'x', alias.swapcase(), alias[:-1] or 'zz'):
            if name and not any(r['Alias'] == name for r in mem):
                out = run.call(oid, lambda: st.cat.get_material(name))
                run.check(not out.ok, 'unknown-found', lambda: 'the unknown alias %r gives a material' % name)
    elif do == 'badrow':
        for ident in (len(mem), len(mem) + 3):
            out = run.call(oid, lambda: st.cat.register_alias(ident, 'bad row alias'))
            same = table_diff(rows_of(st.cat.get_database()), mem) is None
            run.check(same, 'bad-row', lambda: 'registering for row %d of %d changed the table' % (ident, len(mem)))
            out = run.call(oid + '.g', lambda: st.cat.get_material(ident))
            run.check(not out.ok, 'bad-row', lambda: 'row number %d of %d gives a material' % (ident, len(mem)))
        for ident in (None, 1.5, 'p0', ['p0']):
            out = run.call(oid + '.t', lambda: st.cat.register_alias(ident, 'bad row alias'))
            same = table_diff(rows_of(st.cat.get_database()), mem) is None
            run.check(same and not out.ok, 'bad-row', lambda: 'registering for the row %r %s' % (
                ident, 'raised nothing' if same else 'changed the table'))
    elif do == 'badsel' and len(mem) >= op['count']:
        ident = st.cat.get_database().iloc[:op['count']]
        run.call(oid, lambda: st.cat.register_alias(ident, 'bad selection alias'))
        same = table_diff(rows_of(st.cat.get_database()), mem) is None
        run.check(same, 'bad-selection', lambda: 'registering for a selection of %d rows changed the table' %
                  op['count'])
    elif do == 'filter' and mem:
        keep = [bool(op['mask'] >> (i % 10) & 1) for i in range(len(mem))]
        st.cat.set_database(st.cat.get_database()[keep])
        st.mem = [r for r, k in zip(mem, keep) if k]
    elif do == 'sort' and mem:
        order = sorted(range(len(mem)), key=lambda i: str(mem[i][op['col']]), reverse=op['desc'])
        frame = st.cat.get_database()
        st.cat.set_database(frame.iloc[order])
        st.mem = [mem[i] for i in order]
    elif do == 'append':
        rows = [make_row(plan, i) for i in op['rows']]
        frame = pd.concat([st.cat.get_database(), frame_of(rows)], ignore_index=not op['keep'])
        st.cat.set_database(frame)
        st.mem = mem + rows
    elif do == 'reset':
        st.cat.set_database(st.cat.get_database().reset_index(drop=True))
    elif do == 'save':
        run.must(oid, st.cat.save_to_file, 'saving')
        st.stored = [dict(r) for r in mem]
    elif do == 'savefail':
        out = run.call(oid + '.f', st.cat.save_to_file)
        outcome_ok_or_fault(out, 'save-failed', 'saving')
        if out.ok:
            st.stored = [dict(r) for r in mem]
            return
        old = st.stored
        if run.world.get('db/c.csv') is None:
            return
        sut = run.load()
        cat = run.must(oid + '.j', lambda: sut.Catalogue(st.config), 'opening after a failed save', proc='other')
        got = rows_of(cat.get_database())
        if table_diff(got, mem) is None:
            st.stored = [dict(r) for r in mem]
        else:
            run.check(old is not None and table_diff(got, old) is None, 'neither-version',
                      'after a failed save the catalogue is neither the old nor the new one')
    elif do == 'reopen':
        if st.stored is not None:
            reopen(run, st, oid)
            check_all(run, plan, st, oid + '.c')
    elif do == 'restart':
        run.kill('main')
        reopen(run, st, oid)
        check_all(run, plan, st, oid + '.c')
    elif do == 'partial' and st.stored is not None:
        st.cat = run.must(oid, lambda: st.sut.Catalogue(st.config, rebuild='Filmetrics'), 'partial rebuild')
        rows = rows_of(st.cat.get_database())
        kept = [r for r in st.stored if r['Module'] == 'UserData']
        got = [r for r in rows if r['Module'] == 'UserData']
        diff = table_diff(got, kept)
        run.check(diff is None, 'aliases-lost', lambda: 'rebuilding Filmetrics changed the rows of UserData: %s' % diff)
        st.mem = rows


def simplify(plan):
    return ()
