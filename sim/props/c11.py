"""C11: setup records only what the user confirmed and what really got installed"""
import builtins
import os
import sys
import types

from .. import gen
from .common import *
from .c10 import equal, clean

BUDGET = {'quick': 560, 'thorough': 15000}
VARIANTS = {'quick': 6, 'thorough': 12}
CALLS = 0.3
SHRINK = ('steps',)
CONFIG = 'home/.config/dispersion/config.yaml'
DEFAULT = 'home/.config/dispersion'
ROOTS = ['db', 'db2', 'new/deep/root', 'Ünï dir', 'x: y #z', DEFAULT]
NAMES = ['catalogue.csv', 'my cat.csv', 'Ünï.csv', 'a#b.csv', 'no_extension', "it's: x.csv"]
BADPATHS = ['rel', './db', 'db/x', '~/db', '.', ' ', 'home']
BADNAMES = ['../up.csv', 'no/such/dir.csv', 'x' * 300, '.', '..', 'missing/']
YES, NO, ODD = ['y', 'yes'], ['n', 'no'], ['', 'Y', 'maybe', ' y', 'yess', 'N', 'nope', '1', 'true']
EXAMPLE_META = {'Reference': 'Literature reference to the data', 'Comment': 'Any additional information goes here',
                'Name': 'Short name of the material', 'FullName': 'Full name of the material',
                'Author': 'The author of this data file'}
EXAMPLES = {
    'example_file.txt': {'fmt': 'txt', 'meta': EXAMPLE_META, 'parts': [
        {'kind': 'tab', 'what': 'nk', 'stype': 'wavelength', 'unit': 'nm',
         'rows': [[400., 1.7, 0.1], [500., 1.6, 0.05], [600., 1.5, 0.0], [700., 1.4, 0.0]]}]},
    'example_file2.yml': {'fmt': 'yml', 'meta': EXAMPLE_META, 'parts': [
        {'kind': 'model', 'name': 'Sellmeier', 'params': [0, 1.0, 0.05, 2.0, 0.1, 10., 25.], 'range': [0.35, 2.0],
         'stype': 'wavelength', 'unit': 'um'},
        {'kind': 'tab', 'what': 'k', 'stype': 'wavelength', 'unit': 'nm',
         'rows': [[400., 0.1], [500., 0.05], [600., 0.0], [700., 0.0]]}]}}


def confirm(rng, yes=0.7):
    out = [rng.choice(ODD) for _ in range(rng.choice([0, 0, 0, 1, 2]))]
    out.append(rng.choice(YES if rng.random() < yes else NO))
    return out


def dialogue(rng):
    """what the user does: a list of answers per question, used up in order"""
    def values(good, bad):
        out = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            out += [rng.choice(bad) for _ in range(rng.choice([0, 0, 1, 2]))]
            out.append(rng.choice(good))
        return out
    roots = ['<root>/' + r for r in ROOTS] + ['']
    return {'path': values(roots, BADPATHS), 'confirm-path': sum((confirm(rng) for _ in range(3)), []),
            'name': values(NAMES + [''], BADNAMES), 'confirm-name': sum((confirm(rng) for _ in range(3)), []),
            'install': confirm(rng), 'download': confirm(rng, 0.6), 'rebuild': confirm(rng),
            'clone': rng.choice(['ok', 'ok', 'ok', 'neterr', 'nogit'])}


def simple_file(rng):
    fmt = rng.choice(['txt', 'csv', 'yml'])
    while True:
        spec = gen.spec(rng, fmt=fmt, simple=True)
        if all(len(p.get('rows', [1, 2])) > 1 for p in spec['parts']):
            return fmt, spec


def generate(rng, tier):
    files = {}
    for root in rng.sample(ROOTS, rng.randint(0, 2)):
        if root.startswith('new'):
            continue
        inside = {}
        for i in range(rng.randint(0, 3)):
            fmt, spec = simple_file(rng)
            inside['mine%d.%s' % (i, fmt)] = spec
        files[root] = {'user': inside, 'rii': rii_tree(rng, rng.randint(0, 3)) if rng.random() < 0.3 else None}
    steps = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        if rng.random() < 0.75:
            steps.append(dict(dialogue(rng), op='setup'))
        else:
            steps.append({'op': 'rebuild', 'script': rng.random() < 0.5, 'rebuild': [rng.choice(ODD + ['yes', 'no']) for _ in range(rng.choice([0, 0, 1, 2]))]
                          + [rng.choice('yyn')]})
        if rng.random() < 0.3:
            fmt, spec = simple_file(rng)
            steps.append({'op': 'add', 'root': rng.choice(ROOTS[:2]), 'name': 'added%d.%s' % (len(steps), fmt),
                          'spec': spec})
    plan = {'files': files, 'steps': steps, 'rii': rii_tree(rng, rng.randint(0, 3)), 'old': rng.random() < 0.5,
            'knobs': random_knobs(rng, small=False)}
    plan['oldroot'] = rng.choice(sorted(files)) if files and plan['old'] else None
    return plan


def perturb(plan, res, rng):
    plan = clone(plan)
    ops = {'s%d' % i for i, s in enumerate(plan['steps']) if s['op'] in ('setup', 'rebuild')}
    kinds = rng.choice([None, None, ('answer', 'clone'), ('open_w', 'write', 'rename', 'mkdir', 'fsync', 'close', 'unlink')])
    plan['faults'] = follow_up(place_faults([e for e in res.trace if e[3] != CONFIG or e[2] not in ('read', 'open_r')],
                                            rng, ops=ops, kinds=kinds, count=rng.choice([1, 1, 1, 2])), rng)
    # a misread configuration is another property's subject
    return plan


class GitError(Exception):
    pass


class User(object):
    """answers the questions and watches the disk while doing so"""

    def __init__(self, run, step, rels):
        self.run, self.step = run, step
        self.left = {k: list(v) for k, v in step.items() if isinstance(v, list)}
        self.said = []
        self.path = self.name = None
        self.pending = None
        self.path_ok = self.name_ok = False
        self.install = self.download = self.rebuild = None
        self.cloned = None
        self.config = run.world.get(CONFIG)
        self.catalogues = {rel: run.world.get(rel) for rel in rels}

    def classify(self, prompt):
        low = prompt.lower()
        if 'confirm' in low and 'root' in low:
            return 'confirm-path'
        if 'confirm' in low:
            return 'confirm-name'
        if 'rebuild' in low:
            return 'rebuild'
        if 'download' in low:
            return 'download'
        if 'install' in low:
            return 'install'
        if 'name' in low:
            return 'name'
        return 'path'

    def input(self, prompt=''):
        kind = self.classify(str(prompt))
        if len(self.said) > 200:
            raise Violation('endless', 'the dialogue asks %r again and again' % prompt)
        world = self.run.world
        world.event('answer', kind)
        # nothing is recorded before everything was confirmed and installed
        if kind != 'rebuild':
            self.run.check(world.get(CONFIG) == self.config, 'early-config',
                           lambda: 'the configuration changed before the question %r' % prompt)
        for rel, data in self.catalogues.items():
            self.run.check(world.get(rel) == data, 'early-catalogue',
                           lambda: 'the catalogue %s changed before the question %r' % (rel, prompt))
        self.accepted(kind, prompt)
        queue = self.left.get(kind) or []
        if queue:
            answer = queue.pop(0)
        else:
            answer = {'path': '<root>/db', 'name': 'catalogue.csv'}.get(kind, 'y')
        answer = answer.replace('<root>', world.root)
        self.said.append((kind, answer))
        self.note(kind, answer)
        return answer

    def accepted(self, kind, prompt):
        """a valid answer is taken at once, any other is asked for again"""
        if not self.said:
            return
        last, answer = self.said[-1]
        good = {'path': lambda: answer == '' or os.path.isabs(answer), 'name': lambda: answer == '' or answer in NAMES}
        if last in good:
            want = 'confirm-' + last if good[last]() else last
        elif self.step['op'] == 'setup' and answer not in YES + NO:
            want = last
        else:
            return
        self.run.check(kind == want, 'answer-ignored', lambda: 'the answer %r to the question for %s is followed by the '
                       'question %r' % (answer, last, prompt))

    def note(self, kind, answer):
        yes, no = answer in YES, answer in NO
        if kind == 'path':
            self.path, self.path_ok = answer, False
            if answer == '':
                self.path = self.run.world.path(DEFAULT)
        elif kind == 'name':
            self.name, self.name_ok = answer, False
            if answer == '':
                self.name = 'catalogue.csv'
        elif kind == 'confirm-path':
            self.path_ok = yes
        elif kind == 'confirm-name':
            self.name_ok = yes
        elif yes or no:
            setattr(self, kind, yes)

    def clone(self, url, to_path, *args, **kwargs):
        world = self.run.world
        rel = world.rel(to_path)
        self.run.check(rel is not None, 'clone-path', lambda: 'the download goes to %r' % to_path)
        self.run.check(self.install and self.download, 'declined-install', lambda: 'the module is downloaded although it '
                       'was declined: %r' % self.said)
        self.cloned = False
        rii = self.run.plan['rii']
        flt = world.event('clone', rel)
        if os.path.isdir(to_path) and os.listdir(to_path):
            raise GitError('destination path already exists and is not an empty directory')
        if self.step.get('clone') == 'neterr':
            raise GitError('could not resolve host')
        if flt is not None:
            if flt['err'] == 'crash':
                world.put(rel + '/.git/partial', b'?')
                world.strike(flt, world.cur(), rel)
            if flt['err'] == 'neterr':
                raise GitError('connection reset')
            world.strike(flt, world.cur(), rel)
        put_rii(self.run, rii, rel + '/database/')
        world.put(rel + '/.git/config', b'x')
        self.cloned = True
        return object()


def with_user(user, fn):
    """run fn with the simulated user and network"""
    fake = types.ModuleType('git')
    fake.Repo = type('Repo', (), {'clone_from': staticmethod(user.clone)})
    fake.GitCommandError = fake.GitError = GitError
    fake.exc = types.SimpleNamespace(GitCommandError=GitError, GitError=GitError)

    def job():
        old, builtins.input = builtins.input, user.input
        had = sys.modules.get('git', False)
        sys.modules['git'] = fake if user.step.get('clone') != 'nogit' else None
        try:
            return fn()
        finally:
            builtins.input = old
            if had is False:
                sys.modules.pop('git', None)
            else:
                sys.modules['git'] = had
    return job


def execute(run, plan):
    world = run.world
    world.mkdir('home')
    cwd = os.getcwd()
    # relative paths end in a folder of the scratch area
    away = os.path.join(run.scratch, 'cwd')
    if os.path.isdir(away):
        seam.real('rmtree')(away)
    seam.real('makedirs')(away)
    os.chdir(away)
    try:
        Story(run, plan).play()
    finally:
        os.chdir(cwd)


class Story(object):
    def __init__(self, run, plan):
        self.run, self.plan, self.world = run, plan, run.world
        self.user_files = {}            # rel -> (root, name, spec)
        self.rii = {}                   # root -> description of what lies there
        self.keep = {}
        self.config = None              # settings of the stored configuration

    def play(self):
        run, plan, world = self.run, self.plan, self.world
        for root, item in plan['files'].items():
            world.mkdir(root + '/UserData')
            for name, spec in item['user'].items():
                self.add(root, name, spec)
            if item['rii'] is not None:
                put_rii(run, item['rii'], root + '/RefractiveIndexInfo/database/')
                self.rii[root] = item['rii']
        if plan['old']:
            root = plan['oldroot'] or 'db'
            world.mkdir(root + '/UserData')
            self.config = gen.config(world.path(root), modules={'UserData': True, 'RefractiveIndexInfo': root in self.rii})
            sut = run.load()
            run.must('old', lambda: sut.config.write_config(clone(self.config)), 'writing a configuration')
            cat = run.must('oldcat', lambda: sut.Catalogue(clone(self.config), rebuild='All'), 'building a catalogue')
            run.must('oldsave', cat.save_to_file, 'saving a catalogue')
        for i, step in enumerate(plan['steps']):
            run.durable()
            if step['op'] == 'add':
                if step['root'] in plan['files']:
                    self.add(step['root'], step['name'], step['spec'])
            elif step['op'] == 'setup':
                self.setup(step, 's%d' % i)
            else:
                self.command(step, 's%d' % i)
        # whatever happened: running setup again succeeds
        run.durable()
        empty = not os.path.isdir(world.path('db/RefractiveIndexInfo')) or \
            not os.listdir(world.path('db/RefractiveIndexInfo'))
        self.setup({'path': ['<root>/db'], 'confirm-path': ['y'], 'name': ['catalogue.csv'], 'confirm-name': ['y'],
                    'install': ['y'], 'download': ['y' if empty else 'n'], 'rebuild': ['y'], 'clone': 'ok', 'op': 'setup'}, 'end',
                   must=True)

    def add(self, root, name, spec):
        rel = '%s/UserData/%s' % (root, name)
        self.world.put(rel, rm.render(spec))
        self.user_files[rel] = (root, name, spec)

    def catalogues(self):
        """every file that could be a catalogue"""
        out = []
        for root in ROOTS:
            for name in NAMES:
                out.append('%s/%s' % (root, name))
        return out

    def check_files(self, what):
        for rel, (_root, _name, spec) in self.user_files.items():
            self.run.check(self.world.get(rel) == rm.render(spec), 'user-file', lambda: '%s the file %s of the user '
                           'changed' % (what, rel))
        for root, rii in self.rii.items():
            base = root + '/RefractiveIndexInfo/database/' + rii['datadir'] + '/'
            for name, spec in rii['files'].items():
                self.run.check(self.world.get(base + name) == rm.render(spec), 'user-file',
                               lambda: '%s the file %s of an installed module changed' % (what, name))

    def rows(self, root, modules, ref):
        want = []
        if modules.get('UserData'):
            files = {name: spec for _rel, (r, name, spec) in self.user_files.items() if r == root}
            for name, spec in EXAMPLES.items():
                if self.world.get('%s/UserData/%s' % (root, name)) is not None:
                    files[name] = spec
            want += module_rows('UserData', files, ref)
        if modules.get('RefractiveIndexInfo'):
            want += module_rows('RefractiveIndexInfo', self.rii[root], ref)
        return want

    def read_catalogue(self, rel, config, oid):
        sut = self.run.load()
        conf = dict(clone(config), Path=os.path.dirname(self.world.path(rel)), File=os.path.basename(rel))
        cat = self.run.must(oid, lambda: sut.Catalogue(conf), 'opening the catalogue %s' % rel, proc='judge',
                            code='catalogue-damaged')
        return rows_of(cat.get_database())

    def setup(self, step, oid, must=False):
        run, world = self.run, self.world
        sut = run.load()
        run.kill('main')
        script = sut.setup_script()
        user = User(run, step, self.catalogues())
        before = world.tree()
        out = run.call(oid, with_user(user, script.main))
        errs = [f['err'] for f in out.op.fired]
        what = 'after a setup that %s with faults %s' % (out.describe(), errs)
        run.state('setup', out.kind, errs[:2], user.install, user.download, user.rebuild, user.cloned, len(user.said) > 8)
        run.check(not os.listdir('.'), 'relative-path', lambda: '%s the working directory holds %r' % (what, os.listdir('.')))
        if user.cloned:
            self.rii[world.rel(user.path)] = run.plan['rii']
        expected_end = step.get('clone') in ('neterr', 'nogit') and user.download or user.cloned is False
        if not expected_end:
            outcome_ok_or_fault(out, 'setup-failed', 'setup')
        if must:
            run.check(out.ok, 'rerun-failed', lambda: 'running setup again %s' % out.describe())
        if 'intr' in errs:
            run.check(not out.ok, 'interrupt-swallowed', 'Ctrl-C was swallowed')
        self.check_files(what)
        if out.ok:
            for name in EXAMPLES:
                rel = '%s/UserData/%s' % (world.rel(user.path), name)
                run.check(world.get(rel) is not None, 'not-installed', lambda: '%s there is no %s' % (what, rel))
        config = self.check_config(user, out, what)
        self.check_catalogue(user, out, what, config, oid)
        self.check_tree(user, before, what)
        if config is not None:
            self.config = config

    def check_config(self, user, out, what):
        run, world = self.run, self.world
        data = world.get(CONFIG)
        if data == user.config:
            run.check(not out.ok or self.config is not None and equal(self.config, self.expected(user)),
                      'config-lost', lambda: '%s no new configuration is stored' % what)
            return None
        run.check(data is not None, 'config-lost', lambda: '%s the configuration is gone' % what)
        import yaml
        try:
            got = yaml.safe_load(data.decode('utf-8'))
        except Exception as err:
            raise Violation('config-damaged', '%s the configuration is damaged: %r (%r)' % (what, data[:200], err))
        run.check(user.path_ok and user.name_ok, 'unconfirmed', lambda: '%s a configuration is stored although path and '
                  'name were not confirmed: %r' % (what, user.said))
        run.check(os.path.isabs(user.path) and world.rel(user.path) is not None, 'relative-path',
                  lambda: '%s a configuration with the root path %r is stored' % (what, user.path))
        run.check(user.install is not None, 'unconfirmed', lambda: '%s a configuration is stored before the modules '
                  'were chosen: %r' % (what, user.said))
        want = self.expected(user, got)
        run.check(isinstance(got, dict) and 'Path' in got, 'config-damaged', lambda: '%s the configuration is %r' % (what, got))
        got = dict(got, Path=clean(got['Path']))
        run.check(equal(got, want), 'wrong-config', lambda: '%s the stored configuration is %r, confirmed was %r (%r)' % (
            what, got, want, user.said))
        return want

    def expected(self, user, got=None):
        modules = {'UserData': True, 'RefractiveIndexInfo': False}
        if user.install:
            if user.download:
                modules['RefractiveIndexInfo'] = bool(user.cloned)
            else:
                base = self.world.rel(user.path) + '/RefractiveIndexInfo/database/'
                modules['RefractiveIndexInfo'] = self.world.get(base + 'library.yml') is not None
                if not modules['RefractiveIndexInfo'] and self.world.get(base + 'catalog-nk.yml') is not None and got:
                    # a database of the newer layout: either answer is correct
                    modules['RefractiveIndexInfo'] = got.get('Modules', {}).get('RefractiveIndexInfo')
        conf = gen.config(clean(user.path), modules=modules, name=user.name)
        return conf

    def check_catalogue(self, user, out, what, config, oid):
        run, world = self.run, self.world
        conf = config or self.config
        target = None
        if user.path_ok and user.name_ok:
            target = '%s/%s' % (world.rel(user.path), user.name)
        for rel in self.catalogues():
            data = world.get(rel)
            if rel == target and user.rebuild and data != user.catalogues[rel]:
                # the only file that may change
                run.check(conf is not None, 'unconfirmed', lambda: '%s there is a catalogue without configuration' % what)
                self.check_rows(rel, conf, out, what, oid)
                continue
            run.check(data == user.catalogues[rel], 'unasked-rebuild', lambda: '%s the catalogue %s changed' % (what, rel))
            if rel == target and user.rebuild and out.ok:
                run.check(data is not None, 'no-catalogue', lambda: '%s there is no catalogue' % what)
                self.check_rows(rel, conf, out, what, oid)

    def check_rows(self, rel, conf, out, what, oid):
        got = self.read_catalogue(rel, conf, oid + '.cat')
        want = self.rows(os.path.dirname(rel), conf['Modules'], conf['ReferenceSpectrum'])
        if out.faulted and out.warned:
            # an announced entry may be left out; one file may be listed more than once
            left, kept = [key_of(r) for r in got], []
            for row in want:
                if key_of(row) in left:
                    left.remove(key_of(row))
                elif any(row['Path'].split('/')[-1] in w for w in out.warned):
                    continue
                kept.append(row)
            want = kept
        diff = match_rows(got, want)
        self.run.check(diff is None, 'catalogue-rows', lambda: '%s the catalogue is wrong: %s' % (what, diff))
        self.world.probe('catalogue rebuilt')

    def check_tree(self, user, before, what):
        """nothing outside the confirmed root and the configuration folder"""
        world = self.world
        allowed = ['home/.config']
        if user.path_ok:
            allowed.append(world.rel(user.path))
        for rel in set(before) ^ set(world.tree()):
            ok = any(rel == a or rel.startswith(a + '/') or a.startswith(rel + '/') for a in allowed)
            self.run.check(ok, 'unconfirmed-place', lambda: '%s %s appeared or vanished (%r)' % (what, rel, user.said))

    def command(self, step, oid):
        """the catalogue rebuild command"""
        run, world = self.run, self.world
        if self.config is None:
            return
        sut = run.load()
        run.kill('main')
        user = User(run, step, self.catalogues())
        command = sut.rebuild_script().main if step.get('script') else sut.pkg.rebuild_catalogue
        out = run.call(oid, with_user(user, command))
        errs = [f['err'] for f in out.op.fired]
        what = 'after a rebuild command that %s with faults %s' % (out.describe(), errs)
        run.state('rebuild', out.kind, errs[:2], user.rebuild)
        outcome_ok_or_fault(out, 'rebuild-failed', 'the rebuild command')
        if 'intr' in errs:
            run.check(not out.ok, 'interrupt-swallowed', 'Ctrl-C was swallowed')
        run.check(world.get(CONFIG) == user.config, 'wrong-config', lambda: '%s the configuration changed' % what)
        self.check_files(what)
        target = '%s/%s' % (world.rel(self.config['Path']), self.config['File'])
        last = user.said[-1][1] if user.said else None
        run.check(last is not None or not out.ok, 'not-asked', lambda: '%s nothing was asked' % what)
        for rel in self.catalogues():
            data = world.get(rel)
            if rel == target and last == 'y' and (out.ok or data != user.catalogues[rel]):
                run.check(data is not None, 'no-catalogue', lambda: '%s there is no catalogue' % what)
                self.check_rows(rel, self.config, out, what, oid)
            else:
                run.check(data == user.catalogues[rel], 'unasked-rebuild', lambda: '%s (answers %r) the catalogue %s '
                          'changed' % (what, user.said, rel))


def simplify(plan):
    for root in plan['files']:
        cand = clone(plan)
        del cand['files'][root]
        if cand['oldroot'] != root:
            yield cand
    for i, step in enumerate(plan['steps']):
        for key, value in step.items():
            if isinstance(value, list) and len(value) > 1:
                for j in range(len(value)):
                    cand = clone(plan)
                    del cand['steps'][i][key][j]
                    yield cand
