"""Worker and coordinator: seeded search, minimisation, replay, evidence."""
import gc
import hashlib
import importlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = '/opt/venv/bin/python'
GROUPS = 8
EVIDENCE = os.path.join(HERE, 'evidence')


def hash_seed(seed, group):
    return int(hashlib.sha256(('%s:%s' % (seed, group)).encode()).hexdigest()[:6], 16) % 4000000 + 1


def make_scratch():
    base = '/dev/shm'
    try:
        st = os.statvfs(base)
        if not os.access(base, os.W_OK) or st.f_bavail * st.f_frsize < 512 * 2**20:
            base = None
    except OSError:
        base = None
    return tempfile.mkdtemp(prefix='dispsim-', dir=base)


def load_module(prop):
    """install the seam, then import everything else"""
    from . import seam, sut
    scratch = os.environ['SIM_SCRATCH']
    tmpdir = os.path.join(scratch, 'tmp')
    os.makedirs(tmpdir, exist_ok=True)
    sys.dont_write_bytecode = True
    seam.install(sut.PREFIX, tmpdir)
    import numpy            # noqa: after the seam
    import pandas           # noqa
    import scipy.interpolate    # noqa
    import scipy.constants  # noqa
    import yaml             # noqa
    sut.install()
    return importlib.import_module('sim.props.' + prop.lower())


# -- worker ---------------------------------------------------------------------------
def worker(prop, seed, tier, group, wall, budget=None):
    module = load_module(prop)
    from . import engine
    scratch = os.environ['SIM_SCRATCH']
    total = budget or module.BUDGET[tier]
    variants = module.VARIANTS[tier]
    start = time.monotonic()
    stats = {'runs': 0, 'bases': 0, 'ops': 0, 'events': 0, 'steps': 0, 'checked': 0, 'fired': {}, 'probes': {},
             'states': set(), 'orders': set(), 'digests': set(), 'nontrivial': set(), 'rechecks': 0, 'mismatches': 0,
             'clock': 0.0, 'switches': 0, 'capped': False, 'samples': [], 'faultless': 0}
    found = None
    gc.disable()

    def one(plan):
        res = engine.execute(module, plan, scratch)
        stats['runs'] += 1
        stats['ops'] += res.ops
        stats['events'] += res.events
        stats['steps'] += res.steps
        stats['checked'] += res.checked
        stats['clock'] += res.clock
        stats['switches'] += len(res.order)
        for key, val in res.fired.items():
            stats['fired'][key] = stats['fired'].get(key, 0) + val
        for key, val in res.probes.items():
            stats['probes'][key] = stats['probes'].get(key, 0) + val
        stats['states'].update(res.states)
        stats['digests'].add(res.digest)
        if res.checked:
            stats['nontrivial'].add(res.digest)
        if res.order:
            stats['orders'].add(hashlib.blake2b(json.dumps(res.order).encode(), digest_size=6).hexdigest())
        if not plan.get('faults') and not plan.get('preempt'):
            stats['faultless'] += 1
        if stats['runs'] % 40 == 7:
            again = engine.execute(module, plan, scratch)
            stats['rechecks'] += 1
            if again.digest != res.digest:
                stats['mismatches'] += 1
        if stats['runs'] % 200 == 0:
            gc.collect()
        return res

    index = group
    while index < total and found is None:
        if time.monotonic() - start > wall:
            stats['capped'] = True
            break
        rng = random.Random('%s:%s:%s' % (prop, seed, index))
        plan = module.generate(rng, tier)
        plan.setdefault('seed', rng.randrange(10**9))
        if getattr(module, 'CALLS', 0) and rng.random() < module.CALLS:
            plan['calls'] = True        # faults also arrive inside calls to the libraries
        plan['prop'] = prop
        plan['origin'] = [seed, index, 0]
        res = one(plan)
        stats['bases'] += 1
        if len(stats['samples']) < 2 and index // GROUPS in (0, 3):
            stats['samples'].append(summary(plan))
        if res.status != 'ok':
            found = (plan, res)
        else:
            for j in range(variants):
                variant = module.perturb(plan, res, rng)
                if variant is None:
                    break
                variant['origin'] = [seed, index, j + 1]
                vres = one(variant)
                if vres.status != 'ok':
                    found = (variant, vres)
                    break
                if j == 0 and len(stats['samples']) < 3:
                    stats['samples'].append(summary(variant))
        index += GROUPS
    out = {'stats': stats, 'found': None}
    for key in ('states', 'orders', 'digests', 'nontrivial'):
        stats[key] = sorted(stats[key])
    if found is not None:
        plan, res = found
        original = plan
        if res.status == 'violation':
            plan = minimise(module, plan, res, scratch, float(os.environ.get(
                'SIM_MINIMISE', 60 if tier == 'quick' else 120)))
            res = engine.execute(module, plan, scratch)
        out['found'] = {'status': res.status, 'code': res.code, 'message': res.message, 'detail': res.detail,
                        'plan': plan, 'original': original, 'digest': res.digest,
                        'hashseed': int(os.environ.get('PYTHONHASHSEED', '0') or 0)}
    sys.stdout.write(json.dumps(out))
    sys.stdout.flush()


def summary(plan):
    text = json.dumps(plan, ensure_ascii=False)
    return json.loads(text) if len(text) < 3000 else {'origin': plan.get('origin'), 'text': text[:3000] + '...'}


# -- minimisation ------------------------------------------------------------------------
def flavour(message):
    """which exception, raised where, a violation is about: minimising keeps to it"""
    return re.findall(r'raised (\w+)|\[(\w+\.py in \w+)\]', message or '')


def minimise(module, plan, res, scratch, limit):
    from . import engine
    stop = time.monotonic() + limit
    code, kind = res.code, flavour(res.message)
    plan = json.loads(json.dumps(plan))

    def fails(candidate):
        if time.monotonic() > stop:
            return False
        try:
            got = engine.execute(module, candidate, scratch)
        except Exception:
            return False
        return got.status == 'violation' and got.code == code and flavour(got.message) == kind

    def without(items, key):
        nonlocal plan
        size = max(1, len(items) // 2)
        while size >= 1 and time.monotonic() < stop:
            i = 0
            while i < len(plan.get(key, [])):
                cand = json.loads(json.dumps(plan))
                del cand[key][i:i + size]
                if fails(cand):
                    plan = cand
                else:
                    i += size
            size //= 2

    changed = True
    while changed and time.monotonic() < stop:
        before = json.dumps(plan, sort_keys=True)
        for key in ('faults', 'preempt') + tuple(getattr(module, 'SHRINK', ('ops',))):
            if isinstance(plan.get(key), list) and plan[key]:
                without(plan[key], key)
        for key in list(plan.get('knobs', {})):
            cand = json.loads(json.dumps(plan))
            del cand['knobs'][key]
            if fails(cand):
                plan = cand
        for i in range(len(plan.get('faults', []))):
            if plan['faults'][i].get('sticky'):
                cand = json.loads(json.dumps(plan))
                del cand['faults'][i]['sticky']
                if fails(cand):
                    plan = cand
        for cand in getattr(module, 'simplify', lambda p: [])(plan):
            if time.monotonic() > stop:
                break
            if fails(cand):
                plan = json.loads(json.dumps(cand))
                break
        changed = json.dumps(plan, sort_keys=True) != before
    return plan


# -- determinism --------------------------------------------------------------------------
def self_test(props, seeds=(1,), budget=24, hashseeds=(1, 77)):
    """the same seeds in several processes under several hash seeds: event logs must be equal"""
    from concurrent.futures import ThreadPoolExecutor
    scratch = make_scratch()
    bad = total = 0
    try:
        jobs = []
        with ThreadPoolExecutor(os.cpu_count() or 1) as pool:
            for prop in props:
                for seed in seeds:
                    for group in (0, 1):
                        for i, hashseed in enumerate(hashseeds):
                            if prop == 'C12':
                                # the code loops over a set: which line follows which is up to the hash seed
                                hashseed = hashseeds[0]
                            where = os.path.join(scratch, '%s-%s-%s-%s' % (prop, seed, group, i))
                            jobs.append((prop, seed, group, hashseed, pool.submit(
                                digests, prop, seed, budget, group, hashseed, where)))
        first = {}
        for prop, seed, group, hashseed, job in jobs:
            got = job.result()[0]
            total += len(got)
            want = first.setdefault((prop, seed, group), got)
            if got != want:
                bad += 1
                print('not deterministic: %s seed %s group %s hash seed %s' % (prop, seed, group, hashseed))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    print('self-test: %d executions in %d processes, %d differences' % (total, len(jobs), bad))
    return bad


def digests(prop, seed, budget, group, hashseed, scratch):
    proc = spawn(['worker', prop, seed, 'quick', group, 600, budget], hashseed, scratch)
    out, err = proc.communicate(timeout=900)
    if proc.returncode != 0:
        raise RuntimeError(err.decode()[-2000:])
    out = json.loads(out.decode())
    return out['stats']['digests'], out


# -- replay ---------------------------------------------------------------------------------
def replay_here(path):
    """runs in a fresh interpreter with the recorded hash seed"""
    with open(path, encoding='utf-8') as fpt:
        rec = json.load(fpt)
    module = load_module(rec['property'])
    from . import engine
    gc.disable()
    res = engine.execute(module, rec['plan'], os.environ['SIM_SCRATCH'], keep_log=True)
    sys.stdout.write(json.dumps({'status': res.status, 'code': res.code, 'message': res.message,
                                 'digest': res.digest, 'detail': res.detail,
                                 'log': res.log[-200:]}, default=str))


def spawn(args, hashseed, scratch):
    env = dict(os.environ)
    env.update(PYTHONHASHSEED=str(hashseed), SIM_SCRATCH=scratch, PYTHONPATH=HERE, PYTHONDONTWRITEBYTECODE='1',
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', HOME=os.path.join(scratch, 'h'),
               PYTHONIOENCODING='utf-8', PYTHONUTF8='1', LC_ALL='C.UTF-8')
    env.pop('PYTHONWARNINGS', None)
    os.makedirs(scratch, exist_ok=True)
    os.makedirs(os.path.join(scratch, 'h', '.config'), exist_ok=True)
    return subprocess.Popen([PYTHON, '-W', 'ignore', '-m', 'sim.driver'] + [str(a) for a in args],
                            cwd=HERE, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)


def replay(path, quiet=False):
    with open(path, encoding='utf-8') as fpt:
        rec = json.load(fpt)
    scratch = make_scratch()
    try:
        proc = spawn(['replay', os.path.abspath(path)], rec['hashseed'], scratch)
        out, err = proc.communicate(timeout=300)
        if proc.returncode != 0:
            return {'status': 'error', 'code': 'replay', 'message': err.decode()[-2000:], 'digest': ''}
        return json.loads(out.decode())
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


# -- coordinator ----------------------------------------------------------------------------
def known_findings(prop):
    path = os.path.join(HERE, 'known_findings.txt')
    out = []
    if os.path.exists(path):
        with open(path, encoding='utf-8') as fpt:
            for line in fpt:
                line = line.strip()
                if line.startswith('known: property=%s ' % prop):
                    # known: property=<id> code=<violation code> match=<text> :: <what fails>
                    head, _, what = line.partition(' :: ')
                    fields = dict(f.split('=', 1) for f in head[len('known: '):].split(' ') if '=' in f)
                    out.append((fields.get('code'), fields.get('match', '').replace('_', ' '), what))
    return out


def coordinate(prop, tier, seed, jobs=None):
    start = time.monotonic()
    wall = {'quick': 150, 'thorough': 3 * 3600}[tier]
    wall = float(os.environ.get('SIM_WALL', wall))
    jobs = jobs or min(GROUPS, os.cpu_count() or 1)
    scratch = make_scratch()
    pending = list(range(GROUPS))
    running, outs, errors = {}, [], []
    try:
        import selectors
        bufs = {}
        while pending or running:
            while pending and len(running) < jobs:
                group = pending.pop(0)
                proc = spawn(['worker', prop, seed, tier, group, wall], hash_seed(seed, group),
                             os.path.join(scratch, 'g%d' % group))
                running[group] = proc
                bufs[group] = [bytearray(), bytearray()]
                for i, stream in enumerate((proc.stdout, proc.stderr)):
                    os.set_blocking(stream.fileno(), False)
            time.sleep(0.02)
            for group, proc in list(running.items()):
                done = proc.poll() is not None
                for i, stream in enumerate((proc.stdout, proc.stderr)):
                    data = stream.read()
                    if data:
                        bufs[group][i] += data
                if done:
                    for i, stream in enumerate((proc.stdout, proc.stderr)):
                        data = stream.read()
                        if data:
                            bufs[group][i] += data
                        stream.close()
                    del running[group]
                    try:
                        out = json.loads(bytes(bufs[group][0]).decode())
                    except ValueError:
                        errors.append('worker %d: exit %s: %s' % (group, proc.returncode,
                                                                  bytes(bufs[group][1]).decode()[-3000:]))
                        continue
                    outs.append(out)
                    if out['found'] is not None and out['found']['status'] == 'violation':
                        # one violation decides; the others need not finish
                        pending = []
                        for other in running.values():
                            other.kill()
                        for other in running.values():
                            other.wait()
                        running = {}
                        break
    finally:
        for proc in running.values():
            proc.kill()
        shutil.rmtree(scratch, ignore_errors=True)
    code = 0
    violations = 0
    for out in outs:
        found = out['found']
        if found is None:
            continue
        if found['status'] != 'violation':
            errors.append('%s: %s\n%s\nplan %s' % (found['code'], found['message'], found['detail'],
                                                   json.dumps(found['plan'])[:600]))
            continue
        verdict = report(prop, found, tier, seed)
        if verdict == 'violation':
            violations += 1
            code = 1
        elif verdict == 'error':
            errors.append('violation %s does not replay: %s' % (found['code'], found['message']))
    for _code, _match, what in known_findings(prop):
        print('KNOWN-FINDING: property=%s %s' % (prop, what))
    write_evidence(prop, tier, seed, outs, time.monotonic() - start, violations)
    if code == 0 and errors:
        for text in errors[:2]:
            sys.stderr.write('ERROR %s\n' % text)
        code = 2
    return code


def report(prop, found, tier, seed):
    os.makedirs(os.path.join(EVIDENCE, 'replays'), exist_ok=True)
    for plan in (found['plan'], found['original']):
        rec = {'property': prop, 'code': found['code'], 'message': found['message'], 'hashseed': found['hashseed'],
               'seed': seed, 'origin': plan.get('origin'), 'plan': plan, 'detail': found.get('detail', '')}
        path = os.path.join(EVIDENCE, 'replays', '%s-%s.json' % (prop, hashlib.sha256(
            json.dumps(plan, sort_keys=True).encode()).hexdigest()[:10]))
        with open(path, 'w', encoding='utf-8') as fpt:
            json.dump(rec, fpt, indent=1, ensure_ascii=False)
        first, second = replay(path), replay(path)
        if first['status'] == 'violation' and first['code'] == found['code'] \
                and second.get('digest') == first['digest']:
            rec['digest'] = first['digest']
            rec['message'] = first['message']
            rec['event_log'] = first['log']
            with open(path, 'w', encoding='utf-8') as fpt:
                json.dump(rec, fpt, indent=1, ensure_ascii=False)
            for kcode, match, what in known_findings(prop):
                if kcode == found['code'] and match in first['message']:
                    return 'known'
            print('%s broken: %s: %s' % (prop, found['code'], first['message'][:1500]))
            print('seed %s, run %s, minimised to %d faults, %d preemptions' % (
                seed, plan.get('origin'), len(plan.get('faults', [])), len(plan.get('preempt', []))))
            print('VIOLATION property=%s replay=%s' % (prop, path))
            return 'violation'
        os.remove(path)
    return 'error'


def write_evidence(prop, tier, seed, outs, wall, violations):
    with open(os.path.join(HERE, 'sim', 'props', 'notes.json'), encoding='utf-8') as fpt:
        notes = json.load(fpt)
    module_doc = dict(notes['common'], **notes.get(prop, {}))
    tot = {'runs': 0, 'bases': 0, 'ops': 0, 'events': 0, 'steps': 0, 'checked': 0, 'clock': 0.0, 'rechecks': 0,
           'mismatches': 0, 'faultless': 0, 'switches': 0}
    fired, probes, sets = {}, {}, {'states': set(), 'orders': set(), 'digests': set(), 'nontrivial': set()}
    samples, capped = [], False
    for out in outs:
        st = out['stats']
        for key in tot:
            tot[key] += st[key]
        for src, dst in ((st['fired'], fired), (st['probes'], probes)):
            for key, val in src.items():
                dst[key] = dst.get(key, 0) + val
        for key in sets:
            sets[key].update(st[key])
        samples += st['samples']
        capped = capped or st['capped']
    doc = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'wall_s': round(wall, 2),
           'violations': violations,
           'coverage': {
               'evaluations': tot['runs'],
               'distinct_nontrivial': len(sets['nontrivial']),
               'rule': module_doc['rule'],
               'samples': samples[:4],
               'simulated_runs_per_hour': int(tot['runs'] / max(wall, 0.01) * 3600),
               'seeds_per_hour': int(tot['bases'] / max(wall, 0.01) * 3600),
               'base_plans': tot['bases'],
               'fault_free_runs': tot['faultless'],
               'operations': tot['ops'], 'io_events': tot['events'], 'scheduling_points': tot['steps'],
               'context_switches': tot['switches'],
               'oracle_checks': tot['checked'],
               'simulated_seconds': round(tot['clock'], 1),
               'faults_injected': dict(sorted(fired.items())),
               'faults_total': sum(fired.values()),
               'probes': dict(sorted(probes.items())),
               'distinct_event_histories': len(sets['digests']),
               'distinct_interleavings': len(sets['orders']),
               'distinct_states': len(sets['states']),
               'state_measure': module_doc['states'],
               'determinism': {'re_executed': tot['rechecks'], 'different': tot['mismatches']},
               'stopped_at_wall_cap': capped,
               'real_code': module_doc['real'], 'stubs': module_doc['stubs']},
           'assumptions': module_doc['assumptions']}
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, prop + '.json'), 'w', encoding='utf-8') as fpt:
        json.dump(doc, fpt, indent=1, ensure_ascii=False)
        fpt.write('\n')


if __name__ == '__main__':
    if sys.argv[1] == 'worker':
        worker(sys.argv[2], int(sys.argv[3]), sys.argv[4], int(sys.argv[5]), float(sys.argv[6]),
               int(sys.argv[7]) if len(sys.argv) > 7 else None)
    elif sys.argv[1] == 'replay':
        replay_here(sys.argv[2])
