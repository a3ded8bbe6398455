"""C20: a catalogue works with exactly the configuration in force, and refuses invalid ones"""
import os

from .. import gen
from .common import *
from .c10 import default, FILE

BUDGET = {'quick': 1000, 'thorough': 28000}
VARIANTS = {'quick': 4, 'thorough': 10}
CALLS = 0.3
SHRINK = ('steps',)
ROOTS = ['db0', 'db 1', 'Ünï']
NAMES = ['catalogue.csv', 'b.csv', 'no extension']
MODULES = ('UserData', 'Filmetrics')
HOME = 'home'


def valid(rng):
    modules = {m: rng.random() < 0.7 for m in MODULES}
    return {'root': rng.choice(ROOTS), 'File': rng.choice(NAMES), 'Interactive': False, 'WarnMissingPackages': rng.random() < 0.5,
            'Modules': modules, 'ReferenceSpectrum': gen.reference(rng)}


WRONG = ['path', 'path-file', 'path-type', 'path-list', 'name', 'name-dir', 'name-long', 'name-type', 'name-none', 'name-up', 'name-root', 'flag',
         'flag-zero', 'flag-empty', 'warn', 'warn-number', 'modules', 'module', 'module-zero', 'module-other', 'reference',
         'value', 'value-gone', 'value-text', 'value-flag', 'value-list', 'type', 'type-unknown', 'unit', 'unit-unknown']


def generate(rng, tier):
    files = {}
    for root in ROOTS + [HOME + '/.config/dispersion']:
        for module in MODULES:
            for i in range(rng.choice([0, 1, 1, 2])):
                spec = gen.spec(rng, simple=True)
                files['%s/%s/%s' % (root, module, gen.file_name(rng, files, spec['fmt']))] = spec
    tables = {}
    for root in ROOTS + [HOME + '/.config/dispersion']:
        for name in NAMES:
            if rng.random() < 0.4:
                rows = gen.catalogue_rows(rng, rng.choice([1, 2, 3]), aliases=False)
                for row in rows:
                    row['Comment'] = 'table of %s %s' % (root, name)
                tables[root + '/' + name] = rows
    steps = []
    for i in range(rng.randint(3, 9)):
        kind = rng.random()
        if kind < 0.3:
            step = {'op': 'write', 'config': valid(rng), 'who': rng.choice(['main', 'main', 'other']),
                    'wrong': rng.choice(WRONG) if rng.random() < 0.15 else None}
        elif kind < 0.55:
            step = {'op': 'open', 'rebuild': rng.choice(['None', 'None', 'All'])}
        elif kind < 0.7:
            step = {'op': 'explicit', 'config': valid(rng), 'rebuild': rng.choice(['None', 'All']), 'reuse': rng.random() < 0.5,
                    'relative': rng.random() < 0.3}
        elif kind < 0.85:
            step = {'op': 'invalid', 'config': valid(rng), 'wrong': rng.choice(WRONG), 'rebuild': rng.choice(['None', 'All', 'UserData'])}
            if rng.random() < 0.4:          # nothing else would notice
                step['config']['Modules'] = {m: False for m in MODULES}
                step['rebuild'] = 'All'
        elif kind < 0.93:
            step = {'op': 'save', 'pick': rng.randrange(9), 'alias': 'al-%d' % i}
        else:
            step = {'op': rng.choice(['remove', 'restart', 'chdir']), 'to': rng.choice(ROOTS + ['.', HOME])}
        steps.append(step)
    return {'files': files, 'tables': tables, 'steps': steps, 'knobs': random_knobs(rng, small=False)}


def perturb(plan, res, rng):
    plan = clone(plan)
    ops = {'s%d' % i for i, s in enumerate(plan['steps']) if s['op'] in ('write', 'open') and s.get('who') != 'other'}
    plan['faults'] = place_faults(res.trace, rng, ops=ops, count=rng.choice([1, 1, 2]), errs=[
        'eio', 'enospc', 'eacces', 'emfile', 'intr', 'crash', 'crash_after', 'estale', 'mem'])
    return plan if plan['faults'] else None


def spoil(config, wrong, world):
    """the configuration with one setting that is not allowed"""
    ref = config['ReferenceSpectrum']
    if wrong == 'path':
        config['Path'] += '/gone'
    elif wrong == 'path-file':
        config['Path'] = world.path('afile')
    elif wrong == 'path-type':
        config['Path'] = None
    elif wrong == 'name-up':
        config['File'] = '../stray.csv'
    elif wrong == 'name-root':
        config['File'] = world.path('stray.csv')
    elif wrong == 'path-list':
        config['Path'] = [config['Path']]
    elif wrong == 'flag-zero':
        config['Interactive'] = 0
    elif wrong == 'flag-empty':
        config['Interactive'] = ''
    elif wrong == 'warn-number':
        config['WarnMissingPackages'] = 1
    elif wrong == 'module-zero':
        config['Modules']['UserData'] = 0
    elif wrong == 'module-other':
        config['Modules']['Mine'] = None
    elif wrong == 'value-text':
        ref['Value'] = str(ref['Value'])
    elif wrong == 'value-flag':
        ref['Value'] = True
    elif wrong == 'value-list':
        ref['Value'] = [ref['Value'], ref['Value'] * 1.5]
    elif wrong == 'name-none':
        config['File'] = None
    elif wrong == 'name':
        config['File'] = ''
    elif wrong == 'name-dir':
        config['File'] = 'nodir/cat.csv'
    elif wrong == 'name-long':
        config['File'] = 'x' * 300
    elif wrong == 'name-type':
        config['File'] = 7
    elif wrong == 'flag':
        config['Interactive'] = 'no'
    elif wrong == 'warn':
        config['WarnMissingPackages'] = None
    elif wrong == 'modules':
        del config['Modules']
    elif wrong == 'module':
        config['Modules']['UserData'] = 'yes'
    elif wrong == 'reference':
        del config['ReferenceSpectrum']
    elif wrong == 'value':
        ref['Value'] = 'red'
    elif wrong == 'value-gone':
        del ref['Value']
    elif wrong == 'type':
        ref['SpectrumType'] = 5.0
    elif wrong == 'type-unknown':
        ref['SpectrumType'] = 'colour'
    elif wrong == 'unit':
        ref['Unit'] = None
    elif wrong == 'unit-unknown':
        ref['Unit'] = 'furlong'
    return config


def build(world, item):
    config = clone(item)
    config['Path'] = world.path(config.pop('root'))
    return config


class Play(object):
    def __init__(self, run, plan):
        self.run, self.plan, self.world = run, plan, run.world
        world = run.world
        for root in ROOTS + [HOME + '/.config/dispersion']:
            for module in MODULES + ('RefractiveIndexInfo',):
                world.mkdir('%s/%s' % (root, module))
            world.put(root + '/RefractiveIndexInfo/database/catalog-nk.yml', b'[]\n')
            world.mkdir(root + '/RefractiveIndexInfo/database/data-nk')
        world.put('afile', b'no directory')
        for name, spec in plan['files'].items():
            world.put(name, rm.render(spec))
        self.sut = run.load()
        self.tables = {}
        for name, rows in plan['tables'].items():
            # a session that stored this table earlier
            root, file_name = name.rsplit('/', 1)
            conf = gen.config(world.path(root), modules={'UserData': False}, name=file_name)
            cat = run.must('init.' + name, lambda: self.sut.Catalogue(conf, rebuild='All'), 'opening')
            cat.set_database(frame_of(rows))
            run.must('init.s.' + name, cat.save_to_file, 'saving')
            self.tables[name] = rows
        self.force = None               # the stored configuration: None, dict
        self.wrong = None
        self.given = None               # the dictionary last handed to a catalogue
        self.open = []                  # catalogues: (catalogue, rows, where it is stored)

    def default(self):
        return dict(default(self.run.home), root=HOME + '/.config/dispersion')

    def current(self):
        return self.default() if self.force is None else self.force

    def rows_for(self, conf, rebuild):
        """what a catalogue has to show (None: there is no catalogue file)"""
        root = conf['root']
        if rebuild == 'None':
            return self.tables.get(root + '/' + conf['File'])
        out = []
        for module, on in conf['Modules'].items():
            if on and module in MODULES:
                files = {n.rsplit('/', 1)[1]: s for n, s in self.plan['files'].items()
                         if n.startswith('%s/%s/' % (root, module))}
                out += module_rows(module, files, conf['ReferenceSpectrum'])
        return out

    def judge(self, out, conf, rebuild):
        """None if the catalogue belongs to the configuration"""
        want = self.rows_for(conf, rebuild)
        got = rows_of(out.value.get_database())
        if want is None:
            return 'a catalogue was opened although %s does not exist' % conf['File']
        return table_diff(got, want) if rebuild == 'None' else match_rows(got, want)

    def step(self, step, oid):
        run, world, op = self.run, self.world, step['op']
        if op == 'restart' or run.procs and not run.alive():
            run.kill('main')
            self.sut = run.load()
            self.open = []
        rel = HOME + '/' + FILE
        before = world.tree()
        if op == 'chdir':
            os.chdir(world.path(step['to']))
        elif op == 'remove':
            if world.get(rel) is not None:
                world.delete(rel)
            self.force, self.wrong = None, None
        elif op == 'write':
            conf = spoil(build(world, step['config']), step['wrong'], world)
            sut = self.sut if step['who'] == 'main' else run.load()
            out = run.call(oid, lambda: sut.config.write_config(clone(conf), dir_path=sut.config._get_user_config_dir()),
                           proc=step['who'])
            outcome_ok_or_fault(out, 'write-failed', 'writing the configuration')
            if out.ok or self.stored_is(conf, oid):
                self.force = None if step['wrong'] else dict(step['config'])
                self.wrong = step['wrong']
            run.state('write', out.kind, [f['err'] for f in out.op.fired][:2], step['wrong'])
        elif op in ('open', 'explicit', 'invalid'):
            rebuild = step['rebuild']
            if op == 'open':
                conf, wrong = self.current(), self.wrong
                out = run.call(oid, lambda: self.sut.Catalogue(rebuild=rebuild))
            else:
                conf, wrong = step['config'], step.get('wrong')
                given = build(world, conf)
                if step.get('relative'):            # as seen from where the session is working
                    given['Path'] = os.path.relpath(given['Path'])
                given = spoil(given, wrong, world)
                if step.get('reuse') and self.given is not None:
                    self.given.clear()          # the caller changes the dictionary used before
                    self.given.update(given)
                    given = self.given
                if op == 'explicit':
                    self.given = given
                kept = clone(given)
                out = run.call(oid, lambda: self.sut.Catalogue(given, rebuild=rebuild))
                run.check(given == kept, 'argument-changed', 'opening changed the configuration it was given')
            errs = [f['err'] for f in out.op.fired]
            run.state(op, out.kind, errs[:2], wrong, rebuild, conf['root'])
            self.verdict(op, out, conf, wrong, rebuild, errs)
            run.check(world.tree() == before, 'disk-changed', lambda: 'opening a catalogue changed the disk: %r' % sorted(
                set(world.tree().items()) ^ set(before.items()), key=str)[:4])
        elif op == 'save' and self.open:
            cat, where = self.open[step['pick'] % len(self.open)]
            rows = rows_of(cat.get_database())
            if rows and not any(r['Alias'] == step['alias'] for r in rows):
                run.must(oid + '.a', lambda: cat.register_alias(0, step['alias']), 'registering an alias')
                rows[0]['Alias'] = step['alias']
            if self.given is not None and step['pick'] // 7 % 3 == 0:
                # the dictionary serves something else now
                self.given.update(File='elsewhere.csv', Path=world.path(ROOTS[step['pick'] // 21 % len(ROOTS)]))
                before = world.tree()
            run.must(oid, cat.save_to_file, 'saving')
            self.tables[where] = rows
            changed = {n for n in set(before) | set(world.tree()) if before.get(n) != world.tree().get(n)}
            run.check(changed <= {where}, 'saved-elsewhere', lambda: 'saving the catalogue of %s changed %r' % (
                where, sorted(changed)))
            run.check(world.get(where) is not None, 'saved-elsewhere', lambda: 'saving did not store %s' % where)

    def stored_is(self, conf, oid):
        """after a write that failed: is the new configuration stored?"""
        from .c10 import equal
        if self.world.get(HOME + '/' + FILE) is None:
            return False
        sut = self.run.load()
        return equal(self.run.must(oid + '.j', sut.config.read_config, 'reading the configuration', proc='judge'), conf)

    def verdict(self, op, out, conf, wrong, rebuild, errs):
        run = self.run
        if 'intr' in errs:
            run.check(not out.ok, 'interrupt-swallowed', 'Ctrl-C was swallowed')
        announced = out.warned
        if op == 'open' and out.ok and errs and announced:
            # the configuration could not be read: the defaults, announced
            diff = self.judge(out, self.default(), rebuild)
            if diff is None:
                run.world.probe('defaults announced')
                return
        if wrong:
            run.check(not out.ok, 'not-refused', lambda: 'a configuration with a wrong setting (%s) was accepted' % wrong)
            run.world.probe('invalid configuration refused')
            return
        if not out.ok:
            if self.rows_for(conf, rebuild) is None:
                run.world.probe('no catalogue file')
                return
            outcome_ok_or_fault(out, 'open-failed', 'opening a catalogue (%s, rebuild %s)' % (op, rebuild))
            return
        diff = self.judge(out, conf, rebuild)
        if diff is not None and errs and rebuild != 'None':
            return                  # faults while data files are read are the business of C05
        run.check(diff is None, 'other-configuration', lambda: '%s with rebuild=%s does not follow the configuration in '
                  'force (root %s, file %s): %s' % (op, rebuild, conf['root'], conf['File'], diff))
        run.world.probe('opened with the %s configuration' % ('given' if op != 'open' else 'default' if self.force is None
                                                              else 'stored'))
        self.open.append((out.value, conf['root'] + '/' + conf['File']))


def execute(run, plan):
    run.world.mkdir(HOME)
    os.chdir(run.world.root)
    play = Play(run, plan)
    for i, step in enumerate(plan['steps']):
        play.step(step, 's%d' % i)


def simplify(plan):
    for key in ('files', 'tables'):
        for name in plan[key]:
            cand = clone(plan)
            del cand[key][name]
            yield cand
