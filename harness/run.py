""" Decides one property. See ../DESIGN.md. """
import argparse
import concurrent.futures
import importlib
import json
import multiprocessing
import os
import sys
import time
import traceback
import warnings
import zlib

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('FORECASTER_REPO', '/repo')
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
# Hypothesis lives in the tooling venv. It's appended, so everything which
# /repo's own environment provides takes precedence.
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
warnings.simplefilter('ignore')

ERROR_EXIT = 3


def load_known(prop):
    with open(os.path.join(VERIF, 'known_findings.json')) as file:
        data = json.load(file)
    return {entry['key']: entry for entry in data['known']
            if entry['property'] == prop}


def load_pinned(prop, check_name):
    path = os.path.join(VERIF, 'corpus', '%s-%s.jsonl' % (prop, check_name))
    if not os.path.exists(path):
        return []
    with open(path) as file:
        return [json.loads(line) for line in file if line.strip()]


_STATE = {}


def _task(args):
    from core import run_shard
    index, seed, count, known, pinned = args
    return run_shard(_STATE['checks'][index], seed, count, known, pinned)


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('property')
    parser.add_argument(
        '--tier', default=os.environ.get('VERIF_TIER', 'quick'),
        choices=('quick', 'thorough'))
    parser.add_argument('--replay')
    parser.add_argument('--only', help='run only this check')
    parser.add_argument('--scale', type=float, default=1.0)
    parser.add_argument('--jobs', type=int, default=8)
    args = parser.parse_args()
    prop = args.property
    seed = int(os.environ.get('VERIF_SEED', '1'))
    start = time.time()

    import core
    module = importlib.import_module('props.' + prop.lower())
    checks = module.CHECKS
    known = load_known(prop)

    if args.replay:
        with open(args.replay) as file:
            data = json.load(file)
        check = next(c for c in checks if c.name == data['check'])
        try:
            core.run_case(check, data['case'], frozenset(known))
        except core.HarnessError:
            raise
        except Exception as exc:  # pylint: disable=broad-except
            traceback.print_exc()
            print("%s: %s" % (check.name, core.describe_exception(exc)))
            print("VIOLATION property=%s replay=%s" % (prop, args.replay))
            return 1
        print("replayed without a violation")
        return 0

    tasks = []
    for index, check in enumerate(checks):
        if args.only and check.name != args.only:
            continue
        total = max(1, int(check.examples[args.tier] * args.scale))
        shards = max(1, min(8 if args.tier == 'quick' else 16, total // 25))
        per = -(-total // shards)
        for shard in range(shards):
            shard_seed = zlib.crc32(
                ("%s/%s/%d/%d" % (prop, check.name, shard, seed)).encode())
            pinned = load_pinned(prop, check.name) if shard == 0 else []
            tasks.append((index, shard_seed, per, frozenset(known), pinned))
    _STATE['checks'] = checks
    # Interleave, so that the biggest checks don't all start last:
    context = multiprocessing.get_context('fork')
    with concurrent.futures.ProcessPoolExecutor(
            max_workers=args.jobs, mp_context=context) as pool:
        outcomes = list(pool.map(_task, tasks))

    per_check = {}
    errors = []
    failures = {}
    known_hits = {}
    for outcome in outcomes:
        agg = per_check.setdefault(outcome.check, {
            'evaluations': 0, 'hashes': set(), 'tags': {}, 'samples': [],
            'oracle_comparisons': 0})
        agg['evaluations'] += outcome.evaluations
        agg['oracle_comparisons'] += outcome.oracle_checks
        agg['hashes'] |= outcome.hashes
        for tag, count in outcome.tags.items():
            agg['tags'][tag] = agg['tags'].get(tag, 0) + count
        agg['samples'].extend(outcome.samples)
        for key, detail in outcome.known.items():
            known_hits.setdefault(key, detail)
        if outcome.error:
            errors.append((outcome.check, outcome.error))
        if outcome.failure:
            case, message = outcome.failure
            size = len(core.canonical(case))
            if (outcome.check not in failures
                    or size < failures[outcome.check][2]):
                failures[outcome.check] = (case, message, size)

    # Evidence:
    what = {c.name: c.what for c in checks}
    coverage = {
        'evaluations': sum(a['evaluations'] for a in per_check.values()),
        'distinct_nontrivial': sum(
            len(a['hashes']) for a in per_check.values()),
        'rule': module.RULE,
        'samples': [
            {'check': name, 'case': sample}
            for name, agg in per_check.items()
            for sample in agg['samples'][:2]],
        'checks': {
            name: {
                'what': what[name],
                'evaluations': agg['evaluations'],
                'distinct_nontrivial': len(agg['hashes']),
                'oracle_comparisons': agg['oracle_comparisons'],
                'distribution': dict(sorted(agg['tags'].items()))}
            for name, agg in per_check.items()},
        'known_findings_seen': sorted(known_hits)}
    evidence = {
        'property': prop, 'tier': args.tier, 'seed': seed,
        'level': 'exploration', 'coverage': coverage,
        'assumptions': list(getattr(module, 'ASSUMPTIONS', [])),
        'wall_s': round(time.time() - start, 3),
        'violations': len(failures)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as file:
        json.dump(evidence, file, indent=1, default=str)

    for key, entry in known.items():
        if key in known_hits:
            print("KNOWN-FINDING: property=%s %s [%s]" % (
                prop, entry['what'], known_hits[key]))
        else:
            print("KNOWN-FINDING: property=%s %s [not reached in this run]"
                  % (prop, entry['what']))
    for name, agg in per_check.items():
        print("%s/%s: %d cases, %d distinct non-trivial, %d comparisons" % (
            prop, name, agg['evaluations'], len(agg['hashes']),
            agg['oracle_comparisons']))
    if failures:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        for name, (case, message, _) in failures.items():
            path = os.path.join(
                VERIF, 'replays', '%s-%s.json' % (prop, name))
            with open(path, 'w') as file:
                json.dump(
                    {'property': prop, 'check': name, 'case': case,
                     'message': message}, file, indent=1)
            print("%s: %s" % (name, message))
            print("   case: %s" % core.canonical(case)[:2000])
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        for name, text in errors:
            print("HARNESS ERROR in %s:\n%s" % (name, text))
        return ERROR_EXIT
    # A check which silently tested nothing mustn't pass:
    for name, agg in per_check.items():
        if agg['evaluations'] == 0 or not agg['hashes']:
            print("HARNESS ERROR: %s explored nothing non-trivial" % name)
            return ERROR_EXIT
    print("%s: held on everything explored (%.1f s)" % (
        prop, time.time() - start))
    return 0


if __name__ == '__main__':
    try:
        CODE = main()
    except SystemExit:
        raise
    except BaseException:  # pylint: disable=broad-except
        traceback.print_exc()
        CODE = ERROR_EXIT
    sys.stdout.flush()
    sys.exit(CODE)
