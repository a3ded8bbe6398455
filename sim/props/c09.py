"""C09: reading a data file depends only on the bytes it holds now"""
from .. import gen
from .common import *

BUDGET = {'quick': 2200, 'thorough': 40000}
VARIANTS = {'quick': 4, 'thorough': 9}
CALLS = 0.3
SHRINK = ('steps',)
KEYS = ('Reference', 'Comment', 'Name', 'FullName', 'Author')
LONG = 5000         # more than any buffer
FORMATS = ('txt', 'csv', 'nk', 'yml')


def content(rng, fmt, rows=None):
    while True:
        spec = gen.spec(rng, fmt='txt' if fmt == 'nk' else fmt, rows=rows)
        if all(len(p.get('rows', [1, 2])) > 1 for p in spec['parts']):
            break
    spec['fmt'] = fmt
    return spec


def bad(rng, fmt):
    """a content that nobody can read completely"""
    kinds = ['utf8', 'gone'] + (['yaml', 'word', 'word'] if fmt == 'yml' else ['word', 'ragged', 'cut'])
    return {'bad': rng.choice(kinds), 'spec': content(rng, fmt)}


def generate(rng, tier):
    names = {}
    for i in range(rng.choice([1, 2, 2, 3])):
        fmt = rng.choice(FORMATS)
        names['f%d.%s' % (i, fmt)] = content(rng, fmt, None if rng.random() < 0.985 else LONG)
    steps, current = [], dict(names)
    for _ in range(rng.randint(3, 9)):
        name = rng.choice(sorted(names))
        kind = rng.random()
        if kind < 0.35:
            fmt = name.rsplit('.')[-1]
            old = current[name]
            if rng.random() < 0.15:
                new = bad(rng, fmt)
            elif 'bad' not in old and rng.random() < 0.35:
                new = gen.same_size(rng, old)
            else:
                new = content(rng, fmt, rng.choice([None, None, 30]) if rng.random() < 0.95 else LONG)
            current[name] = new
            steps.append({'op': 'put', 'name': name, 'new': new})
        elif kind < 0.5 and 'bad' not in current[name]:
            fmt = name.rsplit('.')[-1]
            new = [content(rng, fmt) if rng.random() < 0.6 else gen.same_size(rng, current[name])
                   for _ in range(rng.choice([1, 1, 2]))]
            steps.append({'op': 'race', 'name': name, 'new': new,
                          'readers': [rng.choice(['reader', 'material', 'fresh']) for _ in range(rng.choice([1, 1, 2]))]})
            current[name] = new[-1]
        else:
            steps.append({'op': 'read', 'name': name, 'how': rng.choice(['reader', 'reader', 'material', 'fresh']),
                          'edit': rng.random() < 0.5,
                          'default': list(gen.unit_of(rng)) if rng.random() < 0.3 else ['wavelength', 'nm']})
    steps.append({'op': 'read', 'name': rng.choice(sorted(names)), 'how': 'reader', 'edit': False,
                  'default': ['wavelength', 'nm']})
    return {'files': names, 'steps': steps, 'knobs': random_knobs(rng), 'points': [rng.uniform(0.02, 0.98)
                                                                                  for _ in range(3)]}


def perturb(plan, res, rng):
    plan = clone(plan)
    if rng.random() < 0.5:
        plan['knobs'] = random_knobs(rng)
    ops = {'s%d' % i for i, s in enumerate(plan['steps']) if s['op'] == 'read'}
    races = {'s%d.r%d' % (i, j) for i, s in enumerate(plan['steps']) if s['op'] == 'race'
             for j in range(len(s['readers']))}
    if rng.random() < 0.75:
        plan['faults'] = place_faults(res.trace, rng, ops=ops | races, errs=['eio', 'estale', 'eacces', 'emfile', 'intr',
                                                                             'mem', 'crash'], count=rng.choice([1, 1, 2, 3]))
    if any(s['op'] == 'race' for s in plan['steps']):
        plan['preempt'] = place_preempts(max(res.steps, 12), rng, 3)
    return plan


def as_bytes(item):
    if 'bad' not in item:
        return rm.render(item)
    data = rm.render(item['spec'])
    if item['bad'] == 'gone':
        return None
    if item['bad'] == 'utf8':
        return data + b'#\xff\xfe\x80\n' if item['spec']['fmt'] != 'yml' else b'COMMENTS: "\xff\xfe\x80"\n' + data
    if item['bad'] == 'yaml':
        return data.replace(b'DATA:', b'X: [1, "2\nDATA:')
    if item['spec']['fmt'] == 'yml':
        return yml_word(item['spec'])
    sep = b',' if item['spec']['fmt'] == 'csv' else b' '
    eol = b'' if data.endswith(b'\n') else b'\n'
    if item['bad'] == 'word':
        return data + eol + sep.join([b'1e9', b'none?', b'0.1']) + b'\n'
    if item['bad'] == 'cut':
        return data + eol + b'1e9\n'
    return data + eol + sep.join([b'1e9', b'1', b'2', b'3', b'4']) + b'\n'


def yml_word(spec):
    """a word that is no number in the last table or list of coefficients"""
    last = clone(spec)
    last['style']['noeol'] = True
    data = rm.render(last)
    if spec['parts'][-1]['kind'] == 'tab':
        return data + (b'\r\n' if spec['style'].get('crlf') else b'\n') + b'        1e9 none? 0.1\n'
    return data + b' none?\n'


def store(run, name, item):
    data = as_bytes(item)
    if data is None:
        if run.world.get('d/' + name) is not None:
            run.world.delete('d/' + name)
    else:
        run.world.put('d/' + name, data)


def plain(value):
    return value.tolist() if hasattr(value, 'tolist') else value


def compare_reader(got, spec, path):
    """None or the first difference between a file dictionary and the content"""
    if got['FilePath'] != path:
        return 'the path is %r' % got['FilePath']
    for key in KEYS:
        want = spec['meta'].get(key, '')
        if got['MetaData'][key] != want:
            return '%s is %r, the file says %r' % (key, got['MetaData'][key], want)
    head, want = got['MetaData']['MetaComment'].rstrip('\n'), '\n'.join(spec['header']).rstrip('\n')
    if head != want:
        return 'the header comment is %r, the file says %r' % (head, want)
    specification = got['MetaData']['Specification']
    want = {'temperature': '25 C', 'n_absolute': True} if spec['style'].get('specs') and spec['fmt'] == 'yml' else {}
    if dict(specification) != want:
        return 'the specification is %r, the file says %r' % (specification, want)
    if len(got['Datasets']) != len(spec['parts']):
        return '%d data sets instead of %d' % (len(got['Datasets']), len(spec['parts']))
    for item, part in zip(got['Datasets'], spec['parts']):
        if part['kind'] == 'tab':
            dtype, rows = 'tabulated ' + part['what'], rm.file_rows(spec, part)
            data = plain(item['Data'])
            if isinstance(data, str):
                data = [[float(v) for v in line.split()] for line in data.split('\n') if line.strip()]
            if item['DataType'] != dtype:
                return 'the data type is %r, the file says %r' % (item['DataType'], dtype)
        else:
            if item['DataType'] not in ('model ' + part['name'], 'formula %d' % rm.NUMBER.get(part['name'], 0)):
                return 'the data type is %r, the file says %r' % (item['DataType'], part['name'])
            data = plain(item['Data'])
            if isinstance(data, str):
                data = [float(v) for v in data.split()]
            rows = part['params']
            ends = plain(item['ValidRange'])
            ends = [float(v) for v in (ends.split() if isinstance(ends, str) else ends)]
            if ends != part['range']:
                return 'the valid range is %r, the file says %r' % (ends, part['range'])
        if data != rows:
            return 'the numbers are %r, the file says %r' % (str(data)[:150], str(rows)[:150])
        for key, want in (('SpectrumType', part.get('stype') or ''), ('Unit', part.get('unit') or '')):
            if (item[key] or '') != want:
                return '%s is %r, the file says %r' % (key, item[key], want)
    return None


def compare_material(mat, spec, points, default):
    for key in KEYS:
        want = spec['meta'].get(key, '')
        if mat.meta_data[key] != want:
            return '%s is %r, the file says %r' % (key, mat.meta_data[key], want)
    meaning = rm.Meaning(spec, *default)
    lower, upper = meaning.range_m()
    if not lower < upper * 0.99:
        return None
    ends = [float(v) for v in mat.get_maximum_valid_range()]
    ends = sorted(rm.to_metre(v, mat.defaults['spectrum_type'], mat.defaults['unit']) for v in ends)
    if not (same_num(ends[0], lower, 1e-6) and same_num(ends[1], upper, 1e-6)):
        return 'the valid range is %r, the file says %r' % (ends, [lower, upper])
    for t in points:
        lam = lower * (upper / lower) ** t
        got = complex(mat.get_nk_data(lam))
        if not rm.close(got, meaning.nk(lam), slack=2 * slack(meaning, lam)):
            return 'n,k at %r m is %r, the file says %r' % (lam, got, meaning.nk(lam))
    return None


def matches(run, got, how, item, name, default, points):
    if 'bad' in item:
        if item['bad'] == 'word' and item['spec']['fmt'] == 'yml' and how != 'material':
            return None         # the numbers are not parsed yet
        return 'a content that cannot be read (%s) was accepted' % item['bad']
    if how == 'material':
        return compare_material(got, item, points, default)
    return compare_reader(got, item, run.world.path('d/' + name))


def execute(run, plan):
    world = run.world
    current = {}
    for name, spec in plan['files'].items():
        store(run, name, spec)
        current[name] = spec
    sut = run.load()
    readers, kept = {}, []

    def job(name, how, default, who=''):
        path = world.path('d/' + name)
        if how == 'material':
            return lambda: sut.Material(file_path=path, spectrum_type=default[0], unit=default[1])
        if how == 'fresh':
            return lambda: sut.Reader(path).read_file()
        if (name, who) not in readers:
            readers[name, who] = sut.Reader(path)
        return lambda: readers[name, who].read_file()

    for i, step in enumerate(plan['steps']):
        oid, name = 's%d' % i, step['name']
        if step['op'] == 'put':
            store(run, name, step['new'])
            current[name] = step['new']
            continue
        if run.procs and not run.alive():
            sut = run.load()
            readers.clear()
        default = step.get('default', ['wavelength', 'nm'])
        parts = current[name].get('spec', current[name])['parts']
        if not all(p.get('stype') and p.get('unit') for p in parts):
            default = ['wavelength', 'nm']
        if step['op'] == 'read':
            out = run.call(oid, job(name, step['how'], default))
            judge(run, out, [current[name]], step['how'], name, default, plan['points'])
            if out.ok and step['how'] != 'material':
                kept.append((out.value, current[name], name))
                if step['edit']:
                    kept.pop()
                    scribble(out.value)
            continue
        race(run, plan, step, oid, name, job, default, current)
        current[name] = step['new'][-1]
    for value, spec, name in kept:
        diff = matches(run, value, 'reader', spec, name, None, plan['points'])
        run.check(diff is None, 'changed-later', lambda: 'a result handed out earlier changed: %s' % diff)


def race(run, plan, step, oid, name, job, default, current):
    """readers while another session replaces the file"""
    world = run.world
    outs = [None] * len(step['readers'])
    span = [None] * len(step['readers'])
    puts = []

    def reader(k, how):
        start = world.sched.stamp()
        outs[k] = run.call('%s.r%d' % (oid, k), job(name, how, default, k), proc='main')
        span[k] = (start, world.sched.stamp())

    def replacer():
        for item in step['new']:
            world.sched.yield_point()
            start = world.sched.stamp()
            store(run, name, item)
            puts.append((start, world.sched.stamp(), item))
            world.sched.yield_point()

    run.concurrently([lambda k=k, how=how: reader(k, how) for k, how in enumerate(step['readers'])] + [replacer])
    for k, out in enumerate(outs):
        start, end = span[k]
        # the version stored when the read began and every version stored before it ended
        options = [current[name]]
        for pstart, pend, item in puts:
            if pend < start:
                options = [item]
            elif pstart < end:
                options.append(item)
        run.world.probe('file replaced during a read' if len(options) > 1 else 'replacement before or after the read')
        judge(run, out, options, step['readers'][k], name, default, plan['points'])


def judge(run, out, options, how, name, default, points):
    world = run.world
    errs = [f['err'] for f in out.op.fired]
    run.state(how, name[-3:], out.kind, errs[:2], len(options), options[0].get('bad', ''))
    if 'intr' in errs:
        run.check(not out.ok, 'interrupt-swallowed', 'Ctrl-C during a read was swallowed')
    if out.ok:
        diffs = [matches(run, out.value, how, item, name, default, points) for item in options]
        run.check(None in diffs, 'wrong-content' if not errs else 'fault-hidden',
                  lambda: 'reading %s (%s) with faults %s gave: %s' % (name, how, errs, diffs[0]))
        return
    if out.kind == 'crash' and not out.op.proc.alive:
        return                  # a crash takes all threads of the process along
    if any('bad' in item for item in options):
        world.probe('unreadable content refused')
        return
    outcome_ok_or_fault(out, 'read-failed', 'reading %s (%s)' % (name, how))
    world.probe('read fault reported')


def scribble(value):
    """a caller that edits the dictionary it was given"""
    value['MetaData']['Author'] = 'edited'
    value['MetaData']['Specification']['edited'] = True
    value['MetaData'].pop('Name', None)
    for item in value['Datasets']:
        item['Unit'] = 'edited'
        if hasattr(item['Data'], 'fill'):
            item['Data'].fill(-1.0)
    value['Datasets'].append({'edited': 1})


def simplify(plan):
    for name in plan['files']:
        if not any(s['name'] == name for s in plan['steps']):
            cand = clone(plan)
            del cand['files'][name]
            yield cand
