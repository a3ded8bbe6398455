"""C10: the configuration survives faults and is never half stored or half read"""
from .. import gen
from .common import *

BUDGET = {'quick': 800, 'thorough': 20000}
VARIANTS = {'quick': 6, 'thorough': 12}
CALLS = 0.3
SHRINK = ('steps',)
FILE = '.config/dispersion/config.yaml'
HOMES = ['home', 'home', 'home', 'ho me', 'Ünï', 'a #b', 'x: y', "it's", '{x}', '"q"', 'a\\b', '銀']


def number(rng):
    return rng.choice([gen.double(rng), gen.double(rng), float(rng.randint(-5, 5)), rng.randint(-10**12, 10**12),
                       -gen.double(rng)])


def config(rng, tag):
    out = {'Path': rng.choice(['/data/', '/', 'C:\\']) + gen.text(rng, multiline=True), 'File': gen.text(rng) + tag,
           'Interactive': rng.random() < 0.5, 'WarnMissingPackages': rng.random() < 0.5,
           'Modules': {}, 'ReferenceSpectrum': {'Value': number(rng), 'SpectrumType': gen.text(rng),
                                                'Unit': gen.text(rng)}}
    for name in ['UserData', 'RefractiveIndexInfo', 'Filmetrics', gen.word(rng)]:
        if rng.random() < 0.75:
            out['Modules'][name] = rng.random() < 0.5
    if rng.random() < 0.2:
        out[gen.text(rng)] = rng.choice([gen.text(rng, multiline=True), number(rng), None, True,
                                         [gen.text(rng), number(rng)], {gen.word(rng): gen.text(rng)}, [], {}])
    if rng.random() < 0.2:      # empty settings are settings
        key = rng.choice(['Modules', 'Path', 'File', 'Value', 'ReferenceSpectrum', 'Unit'])
        if key in ('Value', 'Unit'):
            out['ReferenceSpectrum'][key] = rng.choice([0, 0.0]) if key == 'Value' else ''
        else:
            out[key] = {} if isinstance(out[key], dict) else ''
    if rng.random() < 0.1:      # larger than one buffer
        out['Comment'] = ' '.join(gen.word(rng) for _ in range(300))
    return out


def generate(rng, tier):
    steps = []
    for i in range(rng.randint(2, 7)):
        kind = rng.random()
        if kind < 0.35:
            steps.append({'op': 'write', 'config': config(rng, str(i)), 'dir': rng.random() < 0.4})
        elif kind < 0.65:
            steps.append({'op': 'get', 'how': rng.choice(['get', 'get', 'import']), 'edit': rng.random() < 0.4})
        elif kind < 0.72:
            steps.append({'op': 'remove', 'dirs': rng.random() < 0.5})
        elif kind < 0.8:
            steps.append({'op': 'restart'})
        elif kind < 0.85:
            steps.append({'op': 'corrupt', 'text': rng.choice(['Path: [a\nFile: "x', '- a\n b: c', '\tPath: x\n'])})
        else:
            tasks = []
            for j in range(rng.choice([2, 2, 3])):
                what = rng.choice(['write', 'get', 'get', 'default'])
                tasks.append({'op': what, 'config': config(rng, '%d.%d' % (i, j)) if what == 'write' else None,
                              'times': rng.choice([1, 1, 2])})
            steps.append({'op': 'race', 'tasks': tasks})
    if rng.random() < 0.4:
        steps.insert(0, {'op': 'race', 'tasks': [{'op': rng.choice(['get', 'get', 'write', 'default']), 'times': 1,
                                                  'config': config(rng, 'first%d' % j)} for j in range(rng.choice([2, 3]))]})
    return {'home': rng.choice(HOMES), 'made': rng.choice(['none', '.config', 'all']), 'steps': steps,
            'knobs': random_knobs(rng)}


def perturb(plan, res, rng):
    plan = clone(plan)
    if rng.random() < 0.3:
        plan['knobs'] = random_knobs(rng)
    ops = {'s%d' % i for i, s in enumerate(plan['steps']) if s['op'] in ('write', 'get')}
    races = [i for i, s in enumerate(plan['steps']) if s['op'] == 'race']
    if not races or rng.random() < 0.6:
        plan['faults'] = follow_up(place_faults(res.trace, rng, ops=ops, count=rng.choice([1, 1, 1, 2, 3])), rng)
    if races:
        plan['preempt'] = place_preempts(max(res.steps, 12), rng, 3)
    return plan


def equal(a, b):
    """the same settings, also in type"""
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, bool) and isinstance(b, bool) and a == b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b
    return type(a) is type(b) and a == b or isinstance(a, str) and isinstance(b, str) and a == b


def default(home):
    return {'Path': home + '/.config/dispersion', 'File': 'catalogue.csv', 'Interactive': False,
            'WarnMissingPackages': False, 'Modules': {'UserData': True, 'RefractiveIndexInfo': True},
            'ReferenceSpectrum': {'Value': 632.8, 'SpectrumType': 'wavelength', 'Unit': 'nanometer'}}


def clean(path):
    """another spelling of the same directory is the same directory"""
    import os
    return os.path.normpath(path) if isinstance(path, str) else path


def is_default(got, home):
    if not isinstance(got, dict) or 'Path' not in got:
        return False
    got = dict(got, Path=clean(got['Path']))
    return equal(got, default(home))


ABSENT, CORRUPT = 'absent', 'corrupt'


class Store(object):
    def __init__(self, run, home, rel):
        self.run, self.home, self.rel, self.want = run, home, rel, ABSENT

    def stored(self, sut, oid):
        """what a clean session reads (it must agree with one possible version)"""
        return self.run.must(oid, sut.config.read_config, 'reading the configuration', proc='judge')


def execute(run, plan):
    import os
    world = run.world
    home = world.path(plan['home'])
    rel = plan['home'] + '/' + FILE
    os.environ['HOME'] = home
    world.mkdir(plan['home'])
    if plan['made'] != 'none':
        world.mkdir(plan['home'] + '/.config')
    if plan['made'] == 'all':
        world.mkdir(plan['home'] + '/.config/dispersion')
    sut = run.load()
    want = ABSENT
    others = {'%s/.config/dispersion/catalogue.csv' % plan['home']: b'user data',
              '%s/notes.txt' % plan['home']: b'notes'}
    if plan['made'] == 'all':
        for name, data in others.items():
            world.put(name, data)
    else:
        others = {}
    for i, step in enumerate(plan['steps']):
        oid, op = 's%d' % i, step['op']
        run.durable()
        if op == 'restart' or run.procs and not run.alive():
            run.kill('main')
            sut = run.load()
        if op == 'remove':
            if world.get(rel) is not None:
                world.delete(rel)
            want = ABSENT
        elif op == 'corrupt':
            world.put(rel, step['text'].encode())
            want = CORRUPT
        elif op == 'write':
            want = do_write(run, plan, step, oid, sut, want, rel, home)
        elif op == 'get':
            got = do_get(run, step, oid, sut, want, rel, home)
            if isinstance(got, dict) and step.get('edit'):
                # what was handed out belongs to the caller
                for value in got.values():
                    if isinstance(value, dict):
                        value['edited'] = True
                got['File'] = 'edited'
        elif op == 'race':
            want = race(run, step, oid, want, rel, home)
        for name, data in others.items():
            run.check(world.get(name) == data, 'other-file', lambda: '%s changed during %s' % (name, op))
    do_get(run, {'how': 'get'}, 'last', sut if run.alive() else run.load(), want, rel, home)
    final = run.load()
    do_get(run, {'how': 'get'}, 'end', final, want, rel, home)


def agrees(run, got, want, home):
    return is_default(got, home) if want is ABSENT else (want is not CORRUPT and equal(got, want))


def do_get(run, step, oid, sut, want, rel, home):
    import os
    from .. import sut as loader
    before = run.world.get(rel)
    if step['how'] == 'import':
        # a new session: importing the package asks for the configuration
        def job():
            os.environ['HOME'] = home
            return loader.Sut().pkg.config
        out = run.call(oid, job)
        sut.make_current()
    else:
        out = run.call(oid, sut.config.get_config)
    errs = [f['err'] for f in out.op.fired]
    run.state('get', step['how'], out.kind, errs[:2], want if isinstance(want, str) else 'stored')
    run.check(run.world.get(rel) == before, 'get-changed-disk', lambda: 'asking for the configuration changed the file '
              '(faults %s)' % errs)
    if 'intr' in errs:
        run.check(not out.ok, 'interrupt-swallowed', 'Ctrl-C was swallowed')
    if not out.ok:
        if want is not CORRUPT:
            outcome_ok_or_fault(out, 'get-failed', 'asking for the configuration')
        run.world.probe('asking failed')
        return
    if agrees(run, out.value, want, home):
        run.world.probe('default' if want is ABSENT else 'stored configuration')
        return out.value
    # defaults instead of the stored configuration: only after an operating-system error, announced
    oserr = any(e in seam.ERRNO for e in errs) or bool(out.op.sticky)
    run.check(is_default(out.value, home), 'mixture' if errs else 'wrong-config',
              lambda: 'asking gave %r, stored is %r (faults %s)' % (out.value, want, errs))
    run.check(oserr or want is CORRUPT, 'defaults-without-reason',
              lambda: 'the defaults were returned although %r is stored and readable (faults %s)' % (want, errs))
    if step['how'] != 'import':         # importing may have its own way of announcing
        run.check(bool(out.warned), 'no-warning', lambda: 'the defaults were returned without a warning (faults %s)' % errs)
    run.world.probe('defaults with a warning')


def writer(sut, config, home, into):
    if into:
        return lambda: sut.config.write_config(config, dir_path=sut.config._get_user_config_dir())
    return lambda: sut.config.write_config(config)


def do_write(run, plan, step, oid, sut, want, rel, home):
    world = run.world
    old = world.get(rel)
    config = clone(step['config'])
    out = run.call(oid, writer(sut, config, home, step['dir']))
    outcome_ok_or_fault(out, 'write-failed', 'writing the configuration')
    errs = [f['err'] for f in out.op.fired]
    if 'intr' in errs:
        run.check(not out.ok, 'interrupt-swallowed', 'Ctrl-C was swallowed')
    run.check(config == step['config'], 'argument-changed', 'writing changed the dictionary it was given')
    new = step['config']
    what = 'after a write that %s with faults %s' % (out.describe(), errs)
    state = read_back(run, oid + '.a', old, want, new, rel, home, what)
    run.state('write', out.kind, errs[:2], state, want if isinstance(want, str) else 'stored')
    if out.ok:
        run.check(state == 'new', 'write-lost', lambda: '%s the stored configuration is the %s one' % (what, state))
    if state == 'old':
        world.probe('old configuration kept' if old is not None else 'still absent')
    if not out.ok:
        if not run.alive():
            sut = run.load()
        run.must(oid + '.again', writer(sut, config, home, step['dir']), 'writing again after the faults stopped',
                 code='retry-failed')
        state = read_back(run, oid + '.b', None, None, new, rel, home, 'after the repeated write')
        run.check(state == 'new', 'retry-lost', 'the repeated write stored nothing')
    return new


def read_back(run, oid, old, want, new, rel, home, what):
    """'old' or 'new': which complete version a new session finds"""
    data = run.world.get(rel)
    if data == old:
        return 'old' if not equal(want, new) else 'new'
    run.check(data is not None, 'lost', lambda: '%s there is no configuration file' % what)
    sut = run.load()
    out = run.call(oid, sut.config.read_config, proc='judge')
    run.check(out.ok and equal(out.value, new), 'damaged', lambda: '%s the file holds neither the old nor the new '
              'configuration: %r (%s)' % (what, data[:200], out.value if out.ok else out.describe()))
    return 'new'


def race(run, step, oid, want, rel, home):
    """several sessions at once"""
    world = run.world
    suts = [run.load() for _ in step['tasks']]
    history = []

    def task(k, item):
        sut = suts[k]
        for j in range(item['times']):
            config = clone(item['config']) if item['op'] == 'write' else None
            fn = {'write': writer(sut, config, home, False), 'get': sut.config.get_config,
                  'default': sut.config.default_config}[item['op']]
            start = world.sched.stamp()
            out = run.call('%s.t%d.%d' % (oid, k, j), fn, proc='p%d' % k)
            history.append({'task': k, 'op': item['op'], 'start': start, 'end': world.sched.stamp(), 'out': out,
                            'config': item['config']})
    run.concurrently([lambda k=k, item=item: task(k, item) for k, item in enumerate(step['tasks'])])
    writes = [h for h in history if h['op'] == 'write']
    for h in history:
        if want is CORRUPT and h['op'] == 'get' and not h['out'].ok:
            continue
        run.check(h['out'].ok, 'race-failed', lambda: '%s by one of several sessions at once %s' % (
            h['op'], h['out'].describe()))
        if h['op'] == 'default':
            run.check(is_default(h['out'].value, home), 'default', lambda: 'the defaults are %r' % h['out'].value)
        if h['op'] == 'get':
            options = [w['config'] for w in writes if w['start'] < h['end'] and not any(
                v['end'] < h['start'] and v['start'] > w['end'] for v in writes)]
            if not any(v['end'] < h['start'] for v in writes):
                options.append(want if want is not CORRUPT else ABSENT)
            run.check(any(agrees(run, h['out'].value, o, home) for o in options), 'race-read',
                      lambda: 'a session got %r while the possible versions were %r' % (h['out'].value, options))
    run.state('race', sorted(t['op'] for t in step['tasks']), len(writes), run.last_sched.switches > 0)
    if writes:
        last = [w['config'] for w in writes if not any(v['start'] > w['end'] for v in writes)]
        sut = run.load()
        got = run.must(oid + '.r', sut.config.read_config, 'reading after concurrent writes', proc='judge',
                       code='damaged')
        for conf in last:
            if equal(got, conf):
                return conf
        raise Violation('race-lost', 'after concurrent writes the configuration is %r, written were %r' % (got, last))
    run.check(world.get(rel) is None or want is not ABSENT, 'get-changed-disk', 'asking created a configuration file')
    return want


def simplify(plan):
    for i, step in enumerate(plan['steps']):
        if step['op'] == 'write':
            for key in step['config']:
                if key not in ('Path', 'File'):
                    cand = clone(plan)
                    del cand['steps'][i]['config'][key]
                    yield cand
    if plan['home'] != 'home':
        yield dict(clone(plan), home='home')
