#!/usr/bin/env python3
"""Decides one property by deterministic simulation.

  check.py PROPERTY        environment: VERIF_TIER (quick|thorough), VERIF_SEED
  check.py --build         builds every simulator binary
  check.py --replay FILE   re-executes a reported violation

Exit 0: held in every simulated run. 1: VIOLATION. 2: the check itself failed.
"""
import collections, fcntl, glob, hashlib, json, os, re, shutil, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = os.path.join(HERE, 'sim')
REPO = '/repo'
WORKERS = 8
EXES = {
    'release': ('target/release/sim', ['cargo', 'build', '--release', '--offline'], 'target'),
    'checked': ('target-checked/checked/sim', ['cargo', 'build', '--profile', 'checked', '--target-dir', 'target-checked', '--offline'], 'target-checked'),
    'nightly': ('target-nightly/release/sim', ['cargo', '+nightly', 'build', '--release', '--no-default-features', '--features', 'nightly', '--target-dir', 'target-nightly', '--offline'], 'target-nightly'),
}
LISTS = {'C05', 'C08', 'C09', 'C10', 'C11', 'C12', 'C15', 'C18', 'C21', 'C22', 'C23'}

class Fail(Exception):
    pass

def exe(b):
    return os.path.join(SIM, EXES[b][0])

def tree_hash():
    h = hashlib.sha256()
    files = [os.path.join(REPO, f) for f in ('Cargo.toml', 'Cargo.lock', 'build.rs')]
    for d, ds, fs in os.walk(os.path.join(REPO, 'src')):
        ds.sort()
        files += [os.path.join(d, f) for f in sorted(fs)]
    for f in files:
        if os.path.exists(f):
            h.update(f.encode() + b'\0' + open(f, 'rb').read() + b'\0')
    return h.hexdigest()

def build(names):
    """Rebuilds the named simulators from /repo's working tree, all at once."""
    want = tree_hash()
    env = dict(os.environ)
    for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'CARGO_BUILD_TARGET_DIR', 'RUSTUP_TOOLCHAIN', 'CARGO_ENCODED_RUSTFLAGS'):
        env.pop(k, None)
    env['CARGO_TERM_COLOR'] = 'never'
    with open(os.path.join(SIM, '.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        procs = []
        for b in names:
            path, cmd, tdir = EXES[b]
            stamp = os.path.join(SIM, tdir, 'repo-stamp')
            old = open(stamp).read() if os.path.exists(stamp) else None
            if old is not None and old != want:
                # never trust timestamps to notice a changed source
                profile = ['--profile', 'checked'] if b == 'checked' else ['--release']
                subprocess.run(['cargo', 'clean', '-p', 'eastl-rs', '--offline', '--target-dir', tdir] + profile, cwd=SIM, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            log = tempfile.TemporaryFile()
            procs.append((b, stamp, log, subprocess.Popen(cmd, cwd=SIM, env=env, stdout=subprocess.DEVNULL, stderr=log)))
        bad = None
        for b, stamp, log, p in procs:
            if p.wait() != 0 or not os.path.exists(exe(b)):
                log.seek(0)
                bad = f'cannot build the {b} simulator:\n' + log.read().decode(errors='replace')[-4000:]
            else:
                open(stamp, 'w').write(want)
        if bad:
            raise Fail(bad)

def known_findings(prop):
    """Listed findings: (class, operation, message pattern). 'fixed:' lines suppress nothing."""
    out = []
    f = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'finding: property=(\S+) class=(\S+) operation="([^"]*)" message=/(.*)/ (.*)$', l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3), re.compile(m.group(4)), m.group(5)))
    return out

def is_known(v, known):
    for c, o, r, text in known:
        if v['class'] == c and v['op'] == o and r.search(v['msg']):
            return text
    return None

def merge(into, line):
    for k, v in line.items():
        if isinstance(v, dict):
            c = into.setdefault(k, collections.Counter())
            for a, n in v.items():
                c[a] += n
        else:
            into[k] = into.get(k, 0) + v

def plan(prop, tier):
    """(build, deep, number of runs, seconds at most)"""
    cfg = json.load(open(os.path.join(HERE, 'tools', 'budget.json')))
    if tier == 'quick':
        secs = cfg['quick_seconds']
        parts = [('release', False, 0.5), ('checked', False, 0.2), ('release', True, 0.15)]
        if prop in LISTS:
            parts.append(('nightly', False, 0.15))
        else:
            parts[0] = ('release', False, 0.65)
    else:
        secs = cfg['thorough_seconds']
        parts = [('release', False, 0.35), ('checked', False, 0.2), ('release', True, 0.25), ('checked', True, 0.1)]
        if prop in LISTS:
            parts += [('nightly', False, 0.07), ('nightly', True, 0.03)]
        else:
            parts[0] = ('release', False, 0.45)
    out = []
    for b, deep, share in parts:
        r = cfg['deep_rate' if deep else 'rate'].get(prop, 500)
        n = int(r * secs * share) // 200 * 200 + 200
        out.append((b, deep, n, max(20, int(secs * share * 4))))
    return out

def explore(prop, seed, b, deep, total, secs, d, keep):
    """One batch: WORKERS processes share runs 0..total."""
    name = prop + ('+' if deep else '')
    tag = f'{d}/{b}{"-deep" if deep else ""}-'
    t0 = time.time()
    ps = []
    for w in range(WORKERS):
        cmd = [exe(b), 'work', name, str(seed), str(w), str(WORKERS), str(total), str(secs), f'{tag}{w}'] + (['keep'] if keep else [])
        ps.append(subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE))
    rcs = [None] * WORKERS
    first_bad = None
    while any(r is None for r in rcs):
        for i, p in enumerate(ps):
            if rcs[i] is None and p.poll() is not None:
                rcs[i] = p.returncode
                if p.returncode == 1 and first_bad is None:
                    first_bad = time.time()
        # others get a little time to come up with an earlier run
        if first_bad and not keep and time.time() - first_bad > 5:
            for i, p in enumerate(ps):
                if rcs[i] is None:
                    p.terminate()
                    p.wait()
                    rcs[i] = 0
        if time.time() - t0 > secs + 120:
            for p in ps:
                p.kill()
            raise Fail(f'{b}: simulator did not stop')
        time.sleep(0.02)
    errs = [ps[i].stderr.read().decode(errors='replace') for i in range(WORKERS) if rcs[i] not in (0, 1)]
    viols = []
    for f in glob.glob(f'{tag}*.viol'):
        for l in open(f):
            v = json.loads(l)
            v['tape'] = re.sub(r'\.viol$', f".tape{v['run']}", f)
            v['build'] = b
            v['deep'] = deep
            viols.append(v)
    if errs and not viols:
        raise Fail(f'{b}: {errs[0]} (exit codes {rcs})')
    st = {}
    for f in glob.glob(f'{tag}*.stats'):
        for l in open(f):
            merge(st, json.loads(l))
    sets = {}
    for k in ('states', 'runs'):
        s = set()
        for f in glob.glob(f'{tag}*.{k}'):
            data = open(f, 'rb').read()
            s.update(struct.unpack(f'<{len(data) // 8}Q', data[:len(data) // 8 * 8]))
        sets[k] = s
    lost = []
    for f in glob.glob(f'{tag}*.lost'):
        lost += [json.loads(l) for l in open(f)]
    return dict(build=b, deep=deep, planned=total, stats=st, states=sets['states'], distinct=sets['runs'], viols=viols, lost=lost, wall=time.time() - t0)

def repeatable(prop, seed, b):
    """The same runs again, one process per run, must take the same course."""
    a = subprocess.run([exe(b), 'digest', prop, str(seed), '0', '24'], capture_output=True, text=True)
    c = subprocess.run([exe(b), 'digest', prop, str(seed), '0', '24'], capture_output=True, text=True, env={'PATH': '/usr/bin', 'X': 'y' * 3000})
    if a.stdout != c.stdout or not a.stdout:
        raise Fail(f'{b}: executions of the same seed differ')
    return len(a.stdout.splitlines())

def report(prop, seed, v, d, budget):
    """Minimises, writes the replay file, and confirms it in a fresh process."""
    name = prop + ('+' if v['deep'] else '')
    out = f'{d}/shrunk'
    body = None
    if os.path.exists(v['tape']):
        r = subprocess.run([exe(v['build']), 'shrink', name, v['tape'], str(budget), out], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if r.returncode == 0 and os.path.exists(out):
            body = open(out).read()
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    path = os.path.join(HERE, 'replays', f"{prop}-{v['build']}-{seed}-{v['run']}.replay")
    if body is None:
        body = f"class {v['class']}\noperation {v['op']}\nmessage {v['msg']}\nattempts 0\n" + open(v['tape']).read()
    head = f"property {prop}\nbuild {v['build']}\ndeep {int(v['deep'])}\nseed {seed}\nrun {v['run']}\n"
    open(path, 'w').write(head + body)
    trace = f'{d}/trace'
    r = subprocess.run([exe(v['build']), 'replay', name, path, trace], capture_output=True, text=True)
    lines = open(trace).read().splitlines() if os.path.exists(trace) else []
    with open(path, 'a') as f:
        f.write('\n# reproduced exactly in a fresh process: ' + ('yes' if r.returncode == 1 else f'no ({r.returncode}) {r.stdout.strip()}') + '\n')
        f.write('# what happens:\n' + ''.join(f'# {l}\n' for l in lines[-400:]))
    return path, r.returncode == 1, lines

def samples(prop, seed, d):
    out = []
    for run in (0, 3):
        t = f'{d}/sample{run}'
        subprocess.run([exe('release'), 'show', prop, str(seed), str(run), t], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if os.path.exists(t):
            ls = open(t, errors='replace').read().splitlines()
            out.append({'seed': seed, 'run': run, 'steps': len(ls), 'trace': [l[:160] for l in ls[:40]]})
    return out

def check(prop):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    parts = plan(prop, tier)
    builds = list(dict.fromkeys(p[0] for p in parts))
    build(builds)
    t_build = time.time() - t0
    d = tempfile.mkdtemp(prefix=f'sim-{prop}-')
    try:
        known = known_findings(prop)
        selfcheck = sum(repeatable(prop, seed, b) for b in builds)
        batches, bad, seen_known = [], [], {}
        for b, deep, total, secs in parts:
            r = explore(prop, seed, b, deep, total, secs, d, bool(known))
            batches.append(r)
            for v in sorted(r['viols'], key=lambda v: v['run']):
                k = is_known(v, known)
                if k is None:
                    bad.append(v)
                else:
                    seen_known.setdefault(k, v)
            if bad:
                break
        path = None
        if bad:
            bad.sort(key=lambda v: v['run'])
            path, exact, lines = report(prop, seed, bad[0], d, 20 if tier == 'quick' else 90)
        write_evidence(prop, tier, seed, batches, bad, t0, t_build, selfcheck, d)
        for k, v in seen_known.items():
            print(f'KNOWN-FINDING: property={prop} {k}')
        if bad:
            v = bad[0]
            print(f"{v['class']}: {v['msg']} (operation {v['op']}, seed {seed}, run {v['run']}, {v['build']} build)")
            print(f'VIOLATION property={prop} replay={path}')
            return 1
        n = sum(b['stats'].get('runs', 0) for b in batches)
        print(f'{prop} held in {n} simulated runs ({time.time() - t0:.0f} s)')
        return 0
    finally:
        shutil.rmtree(d, ignore_errors=True)

def write_evidence(prop, tier, seed, batches, bad, t0, t_build, selfcheck, d):
    tot = {}
    states, distinct, lost = set(), set(), []
    for b in batches:
        s = dict(b['stats'])
        for k, v in s.items():
            if isinstance(v, dict):
                c = tot.setdefault(k, collections.Counter())
                c.update(v)
            else:
                tot[k] = tot.get(k, 0) + v
        states |= b['states']
        distinct |= b['distinct']
        lost += b['lost']
    g = lambda k: tot.get(k, 0)
    wall = sum(b['wall'] for b in batches) or 1e-9
    nz = lambda k: {a: n for a, n in sorted(dict(tot.get(k, {})).items()) if n}
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': g('runs'),
            'distinct_nontrivial': len(distinct),
            'rule': 'One evaluation is one simulated execution: a seed decides container type, history, memory placement, faults and thread switches. Distinct: different digest of choices, memory requests and observations; non-trivial: at least four operations of the code under test.',
            'samples': samples(prop, seed, d),
            'runs_per_hour': int(g('runs') / wall * 3600),
            'seeds_per_hour': int(g('runs') / wall * 3600),
            'simulated_time': {'unit': 'seam crossings (allocator calls, callbacks, element releases, iterator steps); the code reads no clock', 'ticks': g('ticks')},
            'history_steps': g('steps'),
            'memory_requests': g('allocs'),
            'placements': {'reused_blocks': g('reuses'), 'at_vacated_container_memory': g('hints'), 'against_unmapped_pages': g('guards')},
            'thread_switches': g('switches'),
            'faults_fired': nz('fired'),
            'faults_armed': nz('armed'),
            'process_stops_on_exhausted_memory': g('aborts'),
            'operations': nz('ops'),
            'container_types': nz('worlds'),
            'probes': nz('probes'),
            'distinct_states': {'count': len(states), 'measure': 'container type x operation x size class x content class x fault outcome after each operation'},
            'batches': [{'build': b['build'], 'long_histories': b['deep'], 'planned_runs': b['planned'], 'runs': b['stats'].get('runs', 0), 'wall_s': round(b['wall'], 2)} for b in batches],
            'runs_ended_by_something_this_property_does_not_report': len(lost),
            'executions_repeated_and_compared': selfcheck,
            'real_components': ['every line of the eastl_rs crate that the container types run, compiled from /repo unmodified', 'moveit construction', 'std panic unwinding'],
            'stub_components': ['allocators (simulated memory)', 'process allocator (simulated while the crate runs on default-allocator types)', 'element, key, hash, comparator and closure code (instrumented)', 'source iterators', 'thread scheduler', 'foreign peer that builds trees (map and set only)'],
        },
        'assumptions': ['element types are at least one byte', 'user orders and equality are consistent with each other', 'executions larger than the simulated memory are abandoned, never judged'],
        'wall_s': round(time.time() - t0, 2),
        'build_s': round(t_build, 2),
        'violations': len(bad),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    path = os.path.join(HERE, 'evidence', f'{prop}.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(path + '.tmp', path)

def replay(path):
    body = open(path).read()
    f = lambda k: re.search(rf'^{k} (.*)$', body, re.M).group(1)
    prop, b, deep = f('property'), f('build'), f('deep') == '1'
    build([b])
    with tempfile.TemporaryDirectory() as d:
        r = subprocess.run([exe(b), 'replay', prop + ('+' if deep else ''), path, f'{d}/t'], capture_output=True, text=True)
        if os.path.exists(f'{d}/t'):
            print(open(f'{d}/t').read())
        print(r.stdout.strip())
        print({1: 'reproduced exactly', 3: 'a different violation', 0: 'no violation'}.get(r.returncode, f'error {r.returncode}'))
        return r.returncode

def main():
    a = sys.argv[1:]
    try:
        if a[:1] == ['--build']:
            build(list(EXES))
            return 0
        if a[:1] == ['--replay']:
            return replay(a[1])
        return check(a[0])
    except Fail as e:
        print(f'check failed: {e}', file=sys.stderr)
        return 2

if __name__ == '__main__':
    sys.exit(main())
