"""run.sh ID [--thorough] [--replay FILE] [--harness NAME]"""
import importlib
import json
import os
import re
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def say(s):
    sys.__stdout__.write(s + '\n')
    sys.__stdout__.flush()


def known_findings(pid):
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'KNOWN-FINDING: property=(\S+) key=(\S+) (.*)', line)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3).strip()
    return out


def main(argv):
    pid = argv[0]
    tier = 'thorough' if ('--thorough' in argv or os.environ.get('VERIF_TIER') == 'thorough') else 'quick'
    only = argv[argv.index('--harness') + 1] if '--harness' in argv else None
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '0') or 0)
    try:
        import boot
        import explore
    except Exception:
        traceback.print_exc()
        return 2
    prop = None
    load_error = None
    try:
        prop = importlib.import_module('props.' + pid.lower())
    except Exception:
        load_error = traceback.format_exc()
        if '/repo/' not in load_error and 'aces' not in load_error:
            traceback.print_exc()
            return 2

    if '--replay' in argv:
        rep = json.load(open(argv[argv.index('--replay') + 1]))
        if load_error:
            say(load_error)
            return 1
        r = explore.replay(prop.HARNESSES[rep['harness']], rep['harness'], rep['tier'], rep['choices'])
        say(json.dumps(r, indent=1))
        if r['violation']:
            say('VIOLATION property=%s replay=%s' % (pid, argv[argv.index('--replay') + 1]))
            return 1
        return 0

    known = known_findings(pid)
    results, viols = [], []
    broken = None
    if load_error:
        viols.append({'message': 'the code under test cannot be loaded', 'trace': load_error, 'key': None,
                      'choices': [], 'described': [], 'harness': None})
    else:
        budget = getattr(prop, 'BUDGET', {}).get(tier, 650 if tier == 'quick' else 6 * 3600)
        for name, fn in prop.HARNESSES.items():
            if only and name != only:
                continue
            if getattr(prop, 'THOROUGH_ONLY', ()) and name in prop.THOROUGH_ONLY and tier != 'thorough':
                continue
            r = explore.explore(fn, name, tier, known=known, budget=max(20, budget - (time.time() - t0)))
            results.append(r)
            viols += r['violations']
            if r['error'] and not r['violations']:
                broken = '%s: %s' % (name, r['error'])
            if viols or broken:
                break
    seen = {}
    for r in results:
        for k, n in r['known'].items():
            seen[k] = seen.get(k, 0) + n
    for k, n in sorted(seen.items()):
        say('KNOWN-FINDING: property=%s key=%s %s' % (pid, k, known[k]))

    complete = all(r['complete'] for r in results) and bool(results) and not viols
    samples = []
    for r in results:
        samples += r['samples'][:2]
    cov = {
        'states': sum(r['states'] for r in results),
        'transitions': sum(r['transitions'] for r in results),
        'traces_validated_against_impl': sum(r['executions'] for r in results) - len(viols),
        'samples': samples[:12] or [{'none': 'no execution completed'}],
        'exhaustive': complete,
        'bounds': ' '.join(getattr(prop, 'BOUNDS', '').split()),
        'harnesses': [{k: r[k] for k in ('harness', 'executions', 'pruned', 'states', 'transitions', 'maxdepth', 'complete', 'wall_s')}
                      for r in results],
    }
    level = getattr(prop, 'LEVEL', 'model_checking')
    if level == 'fault_enumeration':
        cov['evaluations'] = cov['transitions']
        cov['distinct_nontrivial'] = cov['states']
        cov['rule'] = ' '.join(getattr(prop, 'RULE', '').split())
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': list(getattr(prop, 'ASSUMPTIONS', [])),
          'wall_s': round(time.time() - t0, 2), 'violations': len(viols)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')

    if viols:
        v = viols[0]
        d = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s.json' % pid)
        again = None
        if v['harness']:
            again = explore.replay(prop.HARNESSES[v['harness']], v['harness'], tier, v['choices'])
        rep = {'property': pid, 'tier': tier, 'harness': v['harness'], 'choices': v['choices'],
               'described': v['described'], 'message': v['message'], 'trace': v['trace'],
               'reproduces_in_a_fresh_process': None if again is None else bool(again['violation']),
               'others': [{'harness': x['harness'], 'choices': x['choices'], 'message': x['message'],
                           'described': x['described']} for x in viols[1:10]]}
        with open(path, 'w') as f:
            json.dump(rep, f, indent=1)
        say('%s: %s' % (v['harness'], v['message']))
        for l, x in v['described']:
            say('   %s = %s' % (l, x))
        if v['trace']:
            say('\n'.join('   | ' + l for l in v['trace'].strip().splitlines()[-8:]))
        say('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if broken:
        say('check broken: ' + broken)
        return 2
    say('%s %s: held on %d states, %d transitions, %d executions%s (%.1f s)' % (
        pid, tier, cov['states'], cov['transitions'], cov['traces_validated_against_impl'],
        '' if complete else ' (NOT complete: time budget)', time.time() - t0))
    return 0


if __name__ == '__main__':
    try:
        code = main(sys.argv[1:])
    except BaseException:
        traceback.print_exc()
        code = 2
    sys.__stdout__.flush()
    os._exit(code)
