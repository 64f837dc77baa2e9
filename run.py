#!/usr/bin/env python3
"""Decides one property: runs its workload on the code in /repo under the property's monitors.

    python3 run.py P01 [--tier quick|thorough] [--seed N] [--replay FILE] [--jobs N] [--case N]

Exit 0: the property held on everything observed. Exit 1: a line VIOLATION property=.. replay=..
for each broken case. Exit 2: no verdict (the harness failed, or observed nothing).
"""

import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from props_meta import META, PYTHON

KNOWN_FILE = os.path.join(HERE, 'known_findings.txt')


def known_findings(pid):
    found = {}
    if os.path.exists(KNOWN_FILE):
        for line in open(KNOWN_FILE):
            line = line.strip()
            if line.startswith('known: property=%s ' % pid):
                key, text = line.split(' id=', 1)[1].split(' ', 1)
                found[key] = text
    return found


def stuck(pid, beat, allowed):
    """The case a worker has spent more than the allowed CPU time on, if any."""
    try:
        index, since = open(beat).read().split()
        fields = open('/proc/%d/stat' % pid).read().rsplit(')', 1)[1].split()
        spent = (int(fields[11]) + int(fields[12])) / os.sysconf('SC_CLK_TCK')
    except (OSError, ValueError, IndexError):
        return None
    return int(index) if spent - float(since) > allowed else None


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('property')
    parser.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    parser.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    parser.add_argument('--replay')
    parser.add_argument('--case', type=int)
    parser.add_argument('--jobs', type=int, default=8)
    parser.add_argument('--cases', type=int)
    args = parser.parse_args()

    pid = args.property
    meta = META[pid]
    tier = 'thorough' if args.tier == 'thorough' else 'quick'
    replaying = None
    if args.replay:
        replaying = json.load(open(args.replay))
        args.seed, tier = replaying['seed'], replaying['tier']
        args.case = replaying['case']

    total = args.cases or meta[tier]
    jobs = args.jobs
    envs = meta.get('envs')
    if envs:
        jobs = max(jobs, len(envs)) // len(envs) * len(envs)
    if not os.path.exists(PYTHON):
        print('no verdict: %s is missing' % PYTHON)
        return 2

    started = time.time()
    scratch = tempfile.mkdtemp(prefix='vmon-%s-' % pid)
    try:
        running = []
        for w in range(jobs):
            if args.case is not None and args.case % jobs != w:
                continue
            env = dict(os.environ)
            for name in ('PYTHONPATH', 'PYTHONHOME', 'PYTHONSTARTUP'):
                env.pop(name, None)
            env.update(PYTHONDONTWRITEBYTECODE='1', TZ='UTC', PYTHONHASHSEED='0', LANG='C.UTF-8',
                LC_ALL='C.UTF-8', PYTHONPYCACHEPREFIX=os.path.join(scratch, 'pycache'),
                TMPDIR=scratch)
            if envs:
                env.update(envs[w % len(envs)])
            out = os.path.join(scratch, 'out%d.json' % w)
            job = {'property': pid, 'tier': tier, 'seed': args.seed, 'out': out,
                'cases': [args.case] if args.case is not None else None,
                'range': [w, total, jobs], 'case_cpu': meta.get('case_cpu', 30),
                'soft_cap': 240 if tier == 'quick' else 780, 'max_violations': 3, 'first': w == 0}
            log = open(os.path.join(scratch, 'log%d' % w), 'w')
            process = subprocess.Popen([PYTHON, '-W', 'ignore', os.path.join(HERE, 'vmon', 'worker.py'),
                json.dumps(job)], env=env, cwd=scratch, stdout=log, stderr=subprocess.STDOUT,
                stdin=subprocess.DEVNULL)
            running.append((process, out, log.name))

        hard_cap = started + (420 if tier == 'quick' else 860)
        results, trouble, hung = [], [], []
        pending = list(running)
        while pending:
            time.sleep(0.05)
            for entry in list(pending):
                process, out, log = entry
                if process.poll() is None:
                    index = stuck(process.pid, out + '.beat', meta.get('case_cpu', 30) + 15)
                    if index is None and time.time() < hard_cap:
                        continue
                    process.kill()
                    process.wait()
                    pending.remove(entry)
                    if index is None:
                        trouble.append('a worker did not end in time')
                    else:
                        hung.append({'case': index, 'message': 'a call did not end within %d CPU '
                            'seconds, and could not be interrupted' % meta.get('case_cpu', 30)})
                    continue
                pending.remove(entry)
                try:
                    results.append(json.load(open(out)))
                except Exception:
                    trouble.append('a worker ended without a result (%s): %s'
                        % (process.returncode, open(log, errors='replace').read()[-1500:]))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    violations, evaluations, cases = list(hung), 0, 0
    signatures, counters, samples, known = set(), {}, [], {}
    for r in results:
        violations.extend(r['violations'])
        if r['status'] != 'ok':
            trouble.append(r['detail'])
            continue
        evaluations += r['evaluations']
        cases += r['cases']
        signatures.update(r['signatures'])
        for name, n in r['counters'].items():
            counters[name] = counters.get(name, 0) + n
        samples.extend(r['samples'])
        known.update(r['known'])

    listed = known_findings(pid)
    for key in sorted(known):
        if key in listed:
            print('KNOWN-FINDING: property=%s %s' % (pid, listed[key]))
        else:
            violations.append({'case': -1, 'message': 'finding %s: %s' % (key, known[key])})

    wall = time.time() - started
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    evidence = {'property': pid, 'tier': tier, 'seed': args.seed, 'level': meta.get('level', 'exploration'),
        'coverage': {'evaluations': evaluations, 'distinct_nontrivial': len(signatures),
            'rule': meta['rule'], 'samples': samples[:6] or ['(none)'], 'cases': cases,
            'observed': counters, 'known_findings_seen': sorted(known)},
        'assumptions': meta.get('assumptions', []), 'wall_s': round(wall, 2),
        'violations': len(violations)}
    if args.case is None:
        with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
            json.dump(evidence, f, indent=1, sort_keys=True)

    if violations:
        violations.sort(key=lambda v: v['case'])
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        for v in violations[:5]:
            path = os.path.join(HERE, 'replays', '%s-%s-%d.json' % (pid, args.seed, v['case']))
            with open(path, 'w') as f:
                json.dump({'property': pid, 'seed': args.seed, 'tier': tier, 'case': v['case'],
                    'message': v['message'],
                    'command': 'python3 run.py %s --replay %s' % (pid, path)}, f, indent=1)
            print('VIOLATION property=%s replay=%s' % (pid, os.path.relpath(path, HERE)))
            print('\n'.join('    ' + line for line in v['message'].split('\n')))
        return 1
    if trouble:
        print('no verdict: ' + '\n'.join(trouble)[:6000])
        return 2
    if args.case is None and (not evaluations or len(signatures) < 2):
        print('no verdict: the monitors observed nothing')
        return 2
    print('%s held: %d cases, %d oracle decisions, %d distinct; %.1f s'
        % (pid, cases, evaluations, len(signatures), wall))
    return 0


if __name__ == '__main__':
    sys.exit(main())
