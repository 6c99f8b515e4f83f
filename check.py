#!/usr/bin/env python3
"""check.py --property Cxx [--tier quick|thorough]

Builds the simulator from /repo's working tree, searches seeds for a violation of one property,
confirms, shrinks and replays what it finds, and writes evidence/<id>.json.
Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.  Anything else: the check failed to run.
"""
import argparse, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(HERE, 'tools'))
from checks import CHECKS, COMPONENTS  # noqa: E402


def say(*a):
    print(*a)
    sys.stdout.flush()


def build():
    """make, after dropping objects whose source content (not just time) changed"""
    b = os.path.join(HERE, os.environ.get('VERIF_BUILD', 'build'))
    os.makedirs(b, exist_ok=True)
    h = hashlib.sha256()
    for root in (os.path.join(REPO, 'src'), os.path.join(REPO, 'include')):
        for d, _, fs in sorted(os.walk(root)):
            for f in sorted(fs):
                if f.endswith(('.cpp', '.hpp', '.h', '.c')):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    h.update(open(p, 'rb').read())
    stamp = os.path.join(b, 'repo.sha')
    old = open(stamp).read() if os.path.exists(stamp) else ''
    if old != h.hexdigest():
        if os.path.exists(stamp):
            os.unlink(stamp)
        for o in glob.glob(os.path.join(b, 'repo', '*.o')) + glob.glob(os.path.join(b, 'sim', '*.o')):
            os.unlink(o)
    r = subprocess.run(['make', '-s', '-j8', 'REPO=' + REPO, 'B=' + b], cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        sys.stdout.write(r.stdout.decode(errors='replace')[-6000:])
        say('BUILD FAILED')
        sys.exit(2)
    open(stamp, 'w').write(h.hexdigest())
    return os.path.join(b, 'vsim')


def known_findings(prop):
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r'known: property=(\S+) match=/(.*)/ (.*)$', line)
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


def run_json(cmd, env, timeout):
    try:
        r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout, cwd=HERE)
    except subprocess.TimeoutExpired:
        return None
    for line in r.stdout.decode(errors='replace').splitlines():
        try:
            return json.loads(line)
        except ValueError:
            pass
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--time', type=float)
    ap.add_argument('--workers', type=int, default=8)
    a = ap.parse_args()
    prop = a.property
    spec = CHECKS[prop]
    t0 = time.time()
    vsim = build()
    t_build = time.time() - t0
    quick = a.tier != 'thorough'
    limit = a.time if a.time else (spec.get('quick', 25) if quick else spec.get('thorough', 1500))
    tags = ','.join([prop] + spec.get('tags', []))
    mix = ','.join('%s:%g' % (k, v) for k, v in spec['mix'].items())
    tmp = tempfile.mkdtemp(prefix='vsim-%s-' % prop)
    env = dict(os.environ, VSIM_TMP=tmp)
    outdir = os.path.join(HERE, 'out', prop)
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    failures, summaries, notes = [], [], []
    known = known_findings(prop)

    # 1. schedules that once failed (found before repairs, or by planted changes) are run first
    regress = sorted(glob.glob(os.path.join(HERE, 'regress', prop, '*.replay')))
    rgood = 0

    def one_regress(f):
        return f, run_json([vsim, 'replay', f], env, 120)
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(a.workers) as ex:
        for f, r in ex.map(one_regress, regress):
            if r is None:
                notes.append('regression schedule %s gave no result' % os.path.basename(f))
            elif r['status'] in (1, 2, 3):
                head, skip = [], False
                for line in open(f):
                    if line.startswith('trace-follows'):
                        break
                    if not line.startswith(('expect-', 'message ')):
                        head.append(line)
                raw = os.path.join(outdir, 'regress-' + os.path.basename(f))
                with open(raw, 'w') as o:
                    o.writelines(head)
                    o.write('expect-status %d\nexpect-tag %s\nexpect-hash %s\nmessage %s\n' % (r['status'], r['tag'], r['hash'], r['msg'].replace('\n', ' ')))
                failures.append(dict(scenario='regress', seed=0, status=r['status'], tag=r['tag'], msg=r['msg'], replay=raw, hash=r['hash']))
            else:
                rgood += 1

    # 2. seeded search
    procs = []
    if not failures:
        for w in range(a.workers):
            cmd = [vsim, 'explore', '--mix', mix, '--tags', tags, '--seed', str(a.seed), '--stride', str(a.workers), '--offset', str(w),
                   '--time', str(limit), '--out', outdir, '--property', prop, '--max-fail', '2' if quick else '4']
            if spec.get('cpu'):
                cmd += ['--cpu', str(spec['cpu'])]
            out = open(os.path.join(tmp, 'w%d.jsonl' % w), 'w')
            procs.append((subprocess.Popen(cmd, env=env, stdout=out, stderr=subprocess.DEVNULL, cwd=HERE), out.name))
        seen_at = None
        deadline = time.time() + limit + 120
        while any(p.poll() is None for p, _ in procs):
            time.sleep(0.2)
            if seen_at is None:
                for _, n in procs:
                    if os.path.getsize(n):
                        for line in open(n):
                            if '"type":"failure"' not in line:
                                continue
                            try:
                                d = json.loads(line)
                            except ValueError:
                                continue
                            if d['status'] in (1, 2, 3) and not any(rx.search(d['tag'] + ' ' + d['msg']) for rx, _w in known):
                                seen_at = time.time()
            if seen_at and time.time() - seen_at > (4 if quick else 30):
                for p, _ in procs:
                    if p.poll() is None:
                        p.send_signal(signal.SIGTERM)
                seen_at = time.time() + 1e6
                deadline = min(deadline, time.time() + 60)
            if time.time() > deadline:
                for p, _ in procs:
                    if p.poll() is None:
                        p.kill()
                notes.append('workers killed at the deadline')
                break
        for p, n in procs:
            p.wait()
            got = False
            for line in open(n):
                try:
                    d = json.loads(line)
                except ValueError:
                    continue
                if d['type'] == 'failure':
                    failures.append(d)
                elif d['type'] == 'summary':
                    summaries.append(d)
                    got = True
            if not got:
                notes.append('a worker ended without a summary (status %s)' % p.returncode)
        if not summaries and not failures:
            say('no worker produced a result')
            shutil.rmtree(tmp, ignore_errors=True)
            sys.exit(2)

    # 3. confirm, shrink, replay
    nondet = [f for f in failures if f['status'] not in (1, 2, 3)]
    for f in nondet:
        notes.append('seed %s of %s: %s %s' % (f['seed'], f['scenario'], f['tag'], f['msg']))
    hits_known, violation, unconfirmed = set(), None, []
    cand = [f for f in failures if f['status'] in (1, 2, 3)]
    for i, (rx, what) in enumerate(known):
        for f in cand:
            if rx.search(f['tag'] + ' ' + f['msg']):
                hits_known.add(i)
    cand = [f for f in cand if not any(rx.search(f['tag'] + ' ' + f['msg']) for rx, _ in known)]
    cand.sort(key=lambda f: (f['status'] == 3, os.path.getsize(f['replay']) if os.path.exists(f['replay']) else 1 << 60))
    shrunk = None
    for n, f in enumerate(cand[:4]):
        final = os.path.join(outdir, 'violation-%s-%d.replay' % (prop, n))
        sh = run_json([vsim, 'shrink', f['replay'], final, '--time', '25' if quick else '120'], env, 200 if quick else 600)
        use = final if sh and sh.get('ok') else f['replay']
        rep = run_json([vsim, 'replay', use], env, 300)
        if not (rep and rep.get('same')) and use != f['replay']:
            use = f['replay']
            rep = run_json([vsim, 'replay', use], env, 300)
        if rep and rep['status'] in (1, 2, 3) and (rep.get('same') or rep['tag'] == f['tag']):
            if any(rx.search(rep['tag'] + ' ' + rep['msg']) for rx, _ in known):
                continue
            violation, shrunk = dict(f, final=use, exact=bool(rep.get('same')), msg=rep['msg'], tag=rep['tag']), sh
            break
        unconfirmed.append(dict(scenario=f['scenario'], seed=f['seed'], tag=f['tag'], msg=f['msg']))
    if unconfirmed:
        notes.append('not confirmed by replay: ' + json.dumps(unconfirmed)[:800])

    # 4. evidence
    runs = sum(s['runs'] for s in summaries)
    sim_s = sum(s['sim_s'] for s in summaries)
    shapes = set()
    for s in summaries:
        shapes.update(s['shape_sample'])
    stats = {}
    for s in summaries:
        for k, v in s['stats'].items():
            stats[k] = max(stats.get(k, 0), v) if k.startswith('max:') else stats.get(k, 0) + v
    mixes = {}
    for s in summaries:
        for k, v in s['mix'].items():
            mixes[k] = mixes.get(k, 0) + v
    wall = time.time() - t0
    searched = max([s['wall_s'] for s in summaries] or [0.001])
    samples = []
    for s in summaries[:3]:
        samples += s['samples'][:1]
    if violation:
        samples.append(dict(violation=violation['msg'], scenario=violation['scenario'], seed=violation['seed']))
    cov = dict(
        evaluations=runs, distinct_nontrivial=len(shapes),
        rule='Each case is one simulated execution of the real code: workload, topology, fault schedule and every scheduling decision are drawn from one 64-bit seed '
             '(seed = mix(VERIF_SEED, index)), the profile is drawn from the mix. A case is non-trivial if at least one fault or perturbation was really injected and the '
             'system did useful work; cases are distinct if their interleaving signature differs (' + spec.get('measure', COMPONENTS[spec['scn']]['measure']) + ').',
        samples=samples or [dict(note='no run completed')],
        profiles=mixes, runs_per_hour=int(runs / searched * 3600), seeds_per_hour=int(runs / searched * 3600), simulated_hours=round(sim_s / 3600, 3),
        simulated_to_wall_ratio=round(sim_s / searched, 1),
        faults_injected={k[6:]: v for k, v in sorted(stats.items()) if k.startswith('fault_')},
        observations={k: v for k, v in sorted(stats.items()) if not k.startswith('fault_')},
        components=dict(real=COMPONENTS[spec['scn']]['real'], stub=COMPONENTS[spec['scn']]['stub']),
        regression_schedules=len(regress), regression_schedules_ok=rgood,
        determinism_rechecks=sum(s['determinism_rechecks'] for s in summaries), nondeterministic=len(nondet),
        failures_of_other_properties_seen={k: sum(s['others'].get(k, 0) for s in summaries) for k in set(k for s in summaries for k in s['others'])},
        workers=a.workers, build_s=round(t_build, 1), search_s=round(searched, 1),
    )
    if violation:
        cov['violation'] = dict(tag=violation['tag'], message=violation['msg'], scenario=violation['scenario'], seed=violation['seed'], replay=violation['final'], replay_exact=violation['exact'], shrink=shrunk)
    if notes:
        cov['notes'] = notes[:20]
    ev = dict(property=prop, tier='quick' if quick else 'thorough', seed=a.seed, level='exploration', coverage=cov,
              assumptions=spec.get('assumptions', []) + COMPONENTS[spec['scn']]['assumptions'], wall_s=round(wall, 2), violations=1 if violation else 0)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    shutil.rmtree(tmp, ignore_errors=True)
    for rx, what in known:
        say('KNOWN-FINDING: property=%s %s' % (prop, what))
    for n in notes[:5]:
        say('note: ' + n)
    say('%s %s: %d runs (%d distinct non-trivial), %.0f simulated hours, %.0f s' % (prop, ev['tier'], runs, len(shapes), sim_s / 3600, wall))
    if violation:
        say(violation['msg'][:600])
        say('VIOLATION property=%s replay=%s' % (prop, violation['final']))
        sys.exit(1)
    for f in glob.glob(os.path.join(outdir, 'raw-*')):
        os.unlink(f)
    sys.exit(0)


main()
