#!/usr/bin/env python3
"""check.py PROPERTY: builds the simulated programs from /repo's working tree, explores seeded schedules and faults,
writes evidence/PROPERTY.json. Exit 0: held; 1: VIOLATION line printed; 2: the check itself failed."""
import json, os, subprocess, sys, time, glob, shutil
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import build
from props import PROPS, ASSUME

def sh(a, timeout):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors='replace')

def main():
    prop = sys.argv[1]
    P = PROPS[prop]
    tier = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' or '--thorough' in sys.argv else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    secs = float(os.environ.get('PWSIM_SECONDS', P.get(tier, 25 if tier == 'quick' else 600)))
    t0 = time.time()
    rc, out = build.need(P['tools']) if P['tools'] else (0, '')
    if rc:
        print(out[-4000:]); print(f'{prop}: build failed'); return 2
    tb = time.time() - t0
    exe = os.path.join(build.OUT, 'pwsim')
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    rep = os.path.join(V, 'replays'); os.makedirs(rep, exist_ok=True)
    work = os.path.join(V, '.cache', f'run-{prop}-{os.getpid()}'); os.makedirs(work, exist_ok=True)
    st = os.path.join(work, 'st')
    known = []
    kf = os.path.join(V, 'known-findings.txt')
    if os.path.exists(kf):
        for l in open(kf):
            l = l.strip()
            if l.startswith('KNOWN-FINDING:') and f'property={prop} ' in l:
                known.append((l.split('class=')[1].split()[0], l))
    workers = os.cpu_count() or 8
    web = P['harness'] == 'web'
    page = os.path.join(build.REPO, 'pwned-lookup-web', 'index.html')
    base = ['node', os.path.join(V, 'sim', 'web', 'web.js')] if web else [exe]
    last = f'--page={page}' if web else f'--tools={build.OUT}'
    cmd = base + ['explore', f'--prop={prop}', f'--harness={P["harness"]}', f'--seed={seed}', f'--seconds={secs}', f'--workers={workers}', f'--stats={st}', f'--replays={rep}', last] + [f'--known={k[0]}' for k in known]
    r = sh(cmd, secs + 400)
    if r.returncode not in (0, 1) or not os.path.exists(st):
        print(r.stdout[-3000:]); print(f'{prop}: exploration failed ({r.returncode})'); return 2
    tot, found, internal, samples = {}, {}, [], []
    for f in sorted(glob.glob(st + '*')):
        if f.endswith('.sample'):
            samples.append(open(f, errors='replace').read()[:6000]); continue
        for l in open(f, errors='replace'):
            k, _, v = l.rstrip('\n').partition(' ')
            if k.startswith('#internal'): internal.append(v)
            elif k.startswith('found.'): found[k[6:]] = v
            else:
                try: tot[k] = tot.get(k, 0) + (float(v) if '.' in v else int(v))
                except ValueError: pass
    shutil.rmtree(work, ignore_errors=True)
    wall = time.time() - t0
    runs = int(tot.get('runs', 0)); ex = float(tot.get('wall', secs)) or 1.0
    faults = {k[6:]: int(v) for k, v in tot.items() if k.startswith('fault.') and v}
    cov = {
        'evaluations': runs,
        'distinct_nontrivial': int(tot.get('distinct', 0)),
        'rule': P.get('rule') or 'A case is a seed: it determines workload, schedule and faults (%s). Each simulated run executes the real program(s). Distinct counts different hashes over the sequence of scheduling points, switches, file operations and injected faults of a simulated process; a process that ended without one scheduling point or file operation does not count.' % P['what'],
        'samples': samples[:1] or ['(no run finished long enough to sample)'],
        'seeds': int(tot.get('seeds', 0)), 'seeds_per_hour': int(tot.get('seeds', 0) / ex * 3600), 'runs_per_hour': int(runs / ex * 3600),
        'simulated_processes': int(tot.get('procs', 0)), 'simulated_time_s': round(tot.get('simms', 0) / 1000.0, 1),
        'scheduling_points': int(tot.get('steps', 0)), 'instrumented_memory_accesses': int(tot.get('acc', 0)), 'context_switches': int(tot.get('switches', 0)),
        'file_operations': int(tot.get('io', 0)), 'keys_pressed': int(tot.get('keys', 0)), 'faults_injected': faults,
        'situations_reached': {k[6:]: int(v) for k, v in tot.items() if k.startswith('probe.') and v},
        'process_outcomes': {k[8:]: int(v) for k, v in tot.items() if k.startswith('outcome.') and v},
        'determinism_reruns': int(tot.get('dup', 0)), 'not_reproducible': int(tot.get('irrep', 0)), 'internal_errors': int(tot.get('internals', 0)),
        'real_code': P['real'], 'stubbed': P['stub'], 'build_s': round(tb, 1),
    }
    if internal: cov['internal_messages'] = internal[:5]
    rcode = 0
    lines = []
    for cls, l in known:
        if tot.get('known.' + cls): lines.append(l)
        cov.setdefault('known_findings_seen', {})[cls] = int(tot.get('known.' + cls, 0))
    viol = 0
    if found:
        f = found['file']
        rr = sh(base + ['replay', f, last], 300)
        again = rr.returncode == 1 and f'class={found["class"]} ' in rr.stdout
        cov['violation'] = {'class': found['class'], 'text': found['text'], 'seed': found['seed'], 'decisions': found.get('decs'), 'replayed_in_fresh_process': again}
        if again:
            print(f'{prop}: {found["class"]}: {found["text"]}')
            print(f'  seed {found["seed"]}, decisions before and after minimising: {found.get("decs")}; replay with: {" ".join(base)} replay {f}{" " + last if web else ""}')
            lines.append(f'VIOLATION property={prop} replay={f}'); rcode = 1; viol = 1
        else:
            print(rr.stdout[-2000:]); print(f'{prop}: a violation did not replay in a fresh process: {found}'); rcode = 2
    bad = int(tot.get('internals', 0)) + int(tot.get('irrep', 0))
    if rcode == 0 and (tot.get('badworkers', 0) or runs == 0 or bad > max(3, runs // 20)):
        print(f'{prop}: unusable exploration: {runs} runs, {bad} internal errors, {tot.get("badworkers")} workers died'); print('\n'.join(internal[:5])); rcode = 2
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': P.get('level', 'exploration'), 'coverage': cov, 'assumptions': ASSUME + P.get('assume', []), 'wall_s': round(wall, 1), 'violations': viol}
    json.dump(ev, open(os.path.join(V, 'evidence', prop + '.json'), 'w'), indent=1)
    print(f'{prop}: {runs} simulated runs from {cov["seeds"]} seeds, {cov["distinct_nontrivial"]} distinct courses, {sum(faults.values())} faults, {cov["simulated_time_s"]} s simulated, {wall:.0f} s')
    if bad and rcode == 0: print(f'{prop}: note: {bad} runs without an answer: {internal[:2]}')
    for l in lines: print(l)
    return rcode

if __name__ == '__main__':
    try: rc = main()
    except subprocess.TimeoutExpired as e: print('timeout', e); rc = 2
    sys.exit(rc)
