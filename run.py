#!/usr/bin/env python3
"""run.py PROPERTY [quick|thorough]: decide one property by seeded simulation.

Builds the simulator from /repo's working tree, runs seeded scenarios on all
cores for a fixed time, confirms, minimises and reports every violation, and
rewrites evidence/<PROPERTY>.json.
Exit 0: held on everything explored (but see KNOWN-FINDING lines).
Exit 1: "VIOLATION property=<id> replay=<path>".  Exit 2: no answer.
"""
import collections, glob, json, os, re, shutil, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
os.chdir(HERE)
prop = sys.argv[1]
tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
thorough = tier == 'thorough'
seed = int(os.environ.get('VERIF_SEED', '1') or 1)
NW = os.cpu_count() or 4
SECS = float(os.environ.get('VERIF_SECONDS', '600' if thorough else '40'))
t0 = time.time()


def out(s):
    print(s, flush=True)


def build(variant):
    r = subprocess.run(['bash', 'build.sh', variant], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        out(r.stdout[-4000:])
        out('ERROR: the simulator does not build from /repo')
        sys.exit(2)


if prop != 'C15' or thorough:
    build('rel')
variants = ['rel']
if prop == 'C15' or thorough and os.environ.get('VERIF_NO_ASAN') is None:
    build('asan')
    variants = ['asan'] if prop == 'C15' and not thorough else ['rel', 'asan']
build_s = time.time() - t0
ZSIM = {v: f'{HERE}/build/{v}/zsim' for v in variants}
tmp = tempfile.mkdtemp(prefix='zsim-')
replays = f'{HERE}/replays'
os.makedirs(replays, exist_ok=True)
os.makedirs(f'{HERE}/evidence', exist_ok=True)


def sh(cmd, timeout):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return r.returncode, r.stdout.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as e:
        return -99, (e.stdout or b'').decode('utf8', 'replace')


# ------------------------------------------------------------ known findings
def known():
    """known: property=C11 key="..." file=findings/x.json <what fails>"""
    r = []
    try:
        for l in open('known-findings.txt'):
            m = re.match(r'known: property=(\w+) key="([^"]*)" match="([^"]*)" file=(\S+) (.*)', l)
            if m and m.group(1) == prop:
                r.append(dict(key=m.group(2), match=m.group(3), file=m.group(4), what=m.group(5)))
    except FileNotFoundError:
        pass
    return r


KNOWN = known()


def isKnown(key, msg):
    return any(k['key'] == key and re.search(k['match'], msg) for k in KNOWN)


# ------------------------------------------------------------ the runs
def sweep(variant, base, secs, tag):
    ps, outs = [], []
    for w in range(NW):
        o = f'{tmp}/{tag}.{w}.json'
        outs.append(o)
        cmd = [ZSIM[variant], 'run', prop, '--base', str(base), '--worker', str(w), '--nworkers', str(NW),
               '--seconds', str(secs), '--out', o, '--hashes', f'{tmp}/{tag}.{w}.h']
        if thorough:
            cmd.append('--thorough')
        for k in KNOWN:
            cmd += ['--skip', k['key']]
        ps.append(subprocess.Popen(cmd, stdout=open(f'{tmp}/{tag}.{w}.log', 'w'), stderr=subprocess.STDOUT))
    bad = 0
    end = time.time() + secs + 240
    for p in ps:
        try:
            rc = p.wait(timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = -9
        bad += rc != 0
    res = []
    for w, o in enumerate(outs):
        try:
            res.append(json.load(open(o)))
        except Exception:
            bad += 1
            out(f'ERROR: worker {w} gave no result: ' + open(f'{tmp}/{tag}.{w}.log').read()[-500:])
    return res, bad


base = seed * 1000 + (500 if thorough else 0) + 1
results, bad = [], 0
hashes = set()


def collect(tag):
    for f in glob.glob(f'{tmp}/{tag}.*.h'):
        b = open(f, 'rb').read()
        hashes.update(struct.unpack(f'<{len(b) // 8}Q', b[:len(b) // 8 * 8]))


if thorough:
    part = 0.25 if prop == 'C15' else 0.75
    r, b = sweep('rel', base, SECS * part, 'rel')
    results += [('rel', x) for x in r]
    bad += b
    collect('rel')
    r, b = sweep('asan', base + 1, SECS * (1 - part), 'asan')
    results += [('asan', x) for x in r]
    bad += b
    collect('asan')
else:
    v = variants[0]
    r, b = sweep(v, base, SECS, v)
    results += [(v, x) for x in r]
    bad += b
    collect(v)

tot = collections.Counter()
reach, fired, ops, keys = (collections.Counter() for _ in range(4))
samples, rule, found = [], '', collections.OrderedDict()
simsecs = runsecs = 0.0
for v, j in results:
    for k in ('scenarios', 'nontrivial', 'procs', 'events', 'unstable'):
        tot[k] += j[k]
    simsecs += j['simSeconds']
    runsecs = max(runsecs, j['seconds'])
    for src, dst in (('reach', reach), ('fired', fired), ('ops', ops), ('keys', keys)):
        for k, n in j[src].items():
            dst[k] += n
    if len(samples) < 3:
        samples += j['samples'][:1]
    rule = j['rule']
    for e in j['violations']:
        e['variant'] = v
        found.setdefault(e['key'], []).append(e)

# ------------------------------------------------------------ violations
violations = []
newKeys = []
for key, es in found.items():
    es.sort(key=lambda e: (not e['stable'], len(json.dumps(e['scenario']))))
    done = False
    for e in es[:4]:
        if isKnown(key, e['msg']):
            continue
        if len(violations) >= 6:
            newKeys.append(key)
            break
        name = re.sub(r'[^A-Za-z0-9]+', '-', key).strip('-')[:60]
        raw = f'{tmp}/{name}.json'
        json.dump(e['scenario'], open(raw, 'w'))
        z = ZSIM[e['variant']]
        # the scenario has to fail again, in two fresh processes
        if not all(sh([z, 'replay', raw, '--expect', key], 200)[0] == 1 for _ in range(2)):
            out(f'note: seed {e["scenario"]["seed"]}: "{key}" did not repeat and is not reported')
            continue
        path = f'replays/{prop}-{name}.json'
        rc, log = sh([z, 'minimise', raw, key, path], 240)
        if rc or sh([z, 'replay', path, '--expect', key], 200)[0] != 1:
            json.dump(dict(property=prop, key=key, message=e['msg'], scenario=e['scenario']), open(path, 'w'))
        msg = json.load(open(path)).get('message', e['msg'])
        if isKnown(key, msg) and not isKnown(key, e['msg']):
            json.dump(dict(property=prop, key=key, message=e['msg'], scenario=e['scenario']), open(path, 'w'))
            msg = e['msg']
        violations.append(dict(key=key, seed=e['scenario']['seed'], message=msg, replay=path, variant=e['variant']))
        out(f'seed {e["scenario"]["seed"]} ({e["variant"]}): {key}: {msg[:600]}')
        out(f'  replay with: {z} replay {HERE}/{path}')
        out(f'VIOLATION property={prop} replay={HERE}/{path}')
        break

for k in KNOWN:
    rc, log = sh([ZSIM[variants[0]], 'replay', k['file'], '--expect', k['key']], 200)
    if rc == 1:
        out(f'KNOWN-FINDING: property={prop} {k["what"]}')
    else:
        out(f'note: known finding no longer fails: {k["what"]}')

# ------------------------------------------------------------ evidence
real = ['zmdp command line, configuration, model parsers, planners, bounds, policy and log writers, evaluator '
        '(everything in libzmdp* and main, compiled from /repo with -DZMDP_SIM=1)', 'libstdc++ streams and buffers']
stub = ['file system (in memory: inodes, directory entries, capacity, permissions)', 'wall clock', 'random numbers (rand, random, drand48 families)',
        'signal delivery', 'process exit and kill', 'shell commands run by system()', 'heap contents of fresh memory']
cov = dict(
    evaluations=tot['scenarios'], distinct_nontrivial=len(hashes), rule='each case is one seeded scenario: a generated model, command line and fault plan; ' + rule,
    samples=samples or [{'note': 'no non-trivial scenario without violation'}],
    nontrivial=tot['nontrivial'], simulated_processes=tot['procs'], simulated_events=tot['events'],
    runs_per_hour=int(tot['procs'] / max(runsecs * len(variants), 1e-9) * 3600),
    seeds_per_hour=int(tot['scenarios'] / max(runsecs * len(variants), 1e-9) * 3600),
    simulated_seconds=round(simsecs, 3), faults_injected={k: n for k, n in sorted(fired.items()) if n},
    operations={k: n for k, n in sorted(ops.items()) if n}, reached=dict(sorted(reach.items())),
    distinct_measure='hash of the sequence of backed-up states and of every result of the scenario\'s processes',
    components_real=real, components_stubbed=stub, variants=variants, violated=violations,
    known_findings=[k['what'] for k in KNOWN], build_seconds=round(build_s, 1))
ev = dict(property=prop, tier='thorough' if thorough else 'quick', seed=seed, level='exploration', coverage=cov,
          assumptions=['the reference model and the simulated operating system are right',
                       'models are small (at most a few thousand reachable states)'],
          wall_s=round(time.time() - t0, 1), violations=len(violations))
json.dump(ev, open(f'evidence/{prop}.json', 'w'), indent=1)
shutil.rmtree(tmp, ignore_errors=True)
out(f'{prop} {tier}: {tot["scenarios"]} scenarios, {tot["procs"]} simulated processes, {len(hashes)} distinct non-trivial, '
    f'{len(violations)} violations, {time.time() - t0:.0f} s')
if violations:
    sys.exit(1)
if bad or not tot['scenarios']:
    out('ERROR: a worker failed')
    sys.exit(2)
