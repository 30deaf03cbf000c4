#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Builds the harness binaries of the property from /repo's current working tree
and explores their scenarios exhaustively within the bounds of the tier.
Exit 0: held on everything explored. Exit 1: VIOLATION line printed."""
import json, os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
import build

# property -> harness binaries; scenarios inside declare the properties
BINS = json.load(open(os.path.join(HERE, 'engine/bins.json')))
EVID = os.path.join(HERE, 'evidence')

def log(*a):
    print(*a, flush=True)

def known(prop):
    res = {}
    p = os.path.join(HERE, 'known_findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l:
                continue
            e = json.loads(l)
            if e.get('status') == 'known' and e['property'] == prop:
                res[e['property'] + '|' + e['class']] = e
    return res

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    start = time.time()
    budget = float(os.environ.get('VERIF_BUDGET_S', '0')) or (330 if tier == 'quick' else 2400)
    hard = start + (780 if tier == 'quick' else 3400)
    os.makedirs(EVID, exist_ok=True)
    kn = known(prop)
    scratch = tempfile.mkdtemp(prefix='verif_%s_' % prop)
    notes, reports, violations = [], [], []
    try:
        run(prop, tier, budget, hard, kn, scratch, notes, reports, violations)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return finish(prop, tier, start, kn, notes, reports, violations)

def run(prop, tier, budget, hard, kn, scratch, notes, reports, violations):
    todo = []
    for b in BINS[prop]:
        path, err = build.build(b, log=log)
        if path is None:
            # The tree does not build with the harness: nothing was decided.
            log('BUILD FAILED for %s:\n%s' % (b, err[-4000:]))
            notes.append('build of %s failed: %s' % (b, err[-1500:]))
            sys.exit(2)
        sc = [s for s in json.loads(subprocess.run([path, 'list'], stdout=subprocess.PIPE, check=True).stdout)
              if prop in s['props'] and (s['thorough'] if tier == 'thorough' else s['quick']) >= 0]
        if sc:
            todo.append((b, path, False, [s['name'] for s in sc], sum(s['weight'] for s in sc)))
        rc = [s for s in sc if (s['race_thorough'] if tier == 'thorough' else s['race']) >= 0]
        if rc:
            todo.append((b, None, True, [s['name'] for s in rc], max(1, sum(s['weight'] for s in rc) / 3)))
    total = sum(t[4] for t in todo)
    end = time.time() + budget
    for b, path, race, names, w in todo:
        if path is None:
            path, err = build.build(b, race=True, log=log)
            if path is None:
                notes.append('race build of %s failed: %s' % (b, err[-1500:]))
                log(err[-2000:])
                sys.exit(2)
        left = min(end, hard - 60) - time.time()
        share = max(5.0, left * w / total)
        total -= w
        opts = {'scenarios': names, 'tier': tier, 'budget_s': share, 'props': [prop], 'workers': max(2, min(8, os.cpu_count() or 4)),
                'known': {k: v['id'] for k, v in kn.items()}, 'out': os.path.join(scratch, 'out.json'), 'scratch': scratch, 'bound': -1}
        of = os.path.join(scratch, 'opts.json')
        json.dump(opts, open(of, 'w'))
        if os.path.exists(opts['out']):
            os.remove(opts['out'])
        try:
            p = subprocess.run([path, 'run', of], timeout=max(30, hard - time.time()))
            rc = p.returncode
        except subprocess.TimeoutExpired:
            notes.append('%s%s: out of time' % (b, ' (race)' if race else ''))
            continue
        if rc != 0 or not os.path.exists(opts['out']):
            notes.append('%s: supervisor ended with %s' % (b, rc))
            log('supervisor failed', b, rc)
            sys.exit(2)
        rep = json.load(open(opts['out']))
        for s in rep['scenarios'] or []:
            s['binary'] = b
            reports.append(s)
        for e in rep['errors'] or []:
            notes.append(e[:600])
        for v in rep['violations'] or []:
            v['binary'] = b
            violations.append(v)
        if violations:
            return

def finish(prop, tier, start, kn, notes, reports, violations):
    seen = {}
    for s in reports:
        log('%-28s%s executions=%d states=%d transitions=%d outcomes=%d bound=%d/%d complete=%s wall=%.1fs' % (
            s['scenario'], ' race' if s['race'] else '', s['executions'], s['states'], s['transitions'],
            s['distinct_outcomes'], s['bound_completed'], s['bound_wanted'], s['complete'], s['wall_s']))
        for k, n in (s['known'] or {}).items():
            seen[k] = seen.get(k, 0) + n
    for n in notes:
        log('note:', n[:400])
    for e in kn.values():
        log('KNOWN-FINDING: property=%s %s [%d executions of this run]' % (prop, e['what'], seen.get(e['id'], 0)))
    # states and transitions of the plain build only: the race build repeats them
    plain = [s for s in reports if not s['race']]
    cov = {
        'states': sum(s['states'] for s in plain),
        'transitions': sum(s['transitions'] for s in plain),
        'traces_validated_against_impl': sum(s['executions'] for s in reports),
        'evaluations': sum(s['executions'] for s in reports),
        'distinct_nontrivial': sum(s['distinct_outcomes'] for s in plain),
        'rule': 'Every execution runs the real code under the controlled scheduler; one execution per choice sequence (harness inputs, faults, crash points: all; scheduling deviations: up to the bound). states: decision points visited for the first time; transitions: scheduling points executed; distinct_nontrivial: distinct observed outcomes.',
        'exhaustive': bool(reports) and all(s['complete'] for s in reports) and not violations,
        'scenarios': [{k: s[k] for k in ('binary', 'scenario', 'race', 'bound_completed', 'bound_wanted', 'executions', 'distinct_executions', 'states', 'transitions', 'distinct_outcomes', 'executions_per_bound', 'complete', 'diverged', 'limit_hit', 'known', 'wall_s')} for s in reports],
        'samples': [{'scenario': s['scenario'], 'outcomes': [o[:400] for o in (s['sample_outcomes'] or [])[:3]]} for s in plain],
        'notes': notes,
        'known_findings_seen': seen,
    }
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'model_checking',
          'coverage': cov, 'wall_s': round(time.time() - start, 2), 'violations': len(violations),
          'assumptions': ['one goroutine runs at a time; scheduling points are channel, select, sync and atomic.Value operations of the repository and go-legs, timers in virtual time; data races are looked for by the race build of the same scenarios',
                          'bounds of each scenario as listed; dependencies (go-legs, go-indexer-core, libp2p) run as they are']}
    rc = 0
    if violations:
        v = violations[0]
        rp = os.path.join(EVID, '%s.replay.json' % prop)
        v['how_to_replay'] = "python3 /verif/replay.py %s" % rp
        json.dump(v, open(rp, 'w'), indent=1)
        log('--- violation of %s in scenario %s (%s)\n%s' % (prop, v['scenario'], v['class'], v['text'][:3000]))
        for l in (v.get('log') or [])[-60:]:
            log('   ', l)
        log('VIOLATION property=%s replay=%s' % (prop, rp))
        rc = 1
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    return rc

if __name__ == '__main__':
    sys.exit(main())
