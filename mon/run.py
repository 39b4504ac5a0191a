"""python -m mon.run PROPERTY [quick|thorough] [--replay FILE] [--scenario NAME] [--cases F]"""
import argparse
import importlib
import json
import os
import sys
import time

t0 = time.time()
from . import common  # noqa: E402


# how many times the listed cases the quick tier runs, so that every check takes about half a minute on eight cores
QUICK = dict(C01=6, C02=2.5, C03=5, C04=8, C05=8, C06=4, C07=0.9, C08=1.2, C09=4, C10=7, C11=14, C12=9, C13=10, C14=6, C15=3, C16=2,
             C17=4, C18=5, C19=5, C20=7, C21=4, C22=7, C23=12, C24=9, C25=2.5, C26=1.3, C27=3, C28=1.4, C29=6, C30=2, C31=1, C32=1)


def load(prop):
    """The check module, or the reason why the library cannot even be imported."""
    return importlib.import_module(f'mon.checks.{prop.lower()}')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('tier', nargs='?', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    ap.add_argument('--scenario')
    ap.add_argument('--index', type=int)
    ap.add_argument('--factor', type=float, default=1.0)
    ap.add_argument('--workers', type=int, default=8)
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    a = ap.parse_args()
    prop, tier, seed = a.property.upper(), a.tier, a.seed
    replays = os.path.join(common.EVIDENCE, 'replays')
    os.makedirs(replays, exist_ok=True)
    known = {k['id']: k for k in common.known_findings() if k['property'] == prop}

    try:
        mod = load(prop)
        import wai.ma
        where = os.path.dirname(os.path.abspath(wai.ma.__file__))
        assert where.startswith(os.path.abspath(common.SRC)), where
        broken = None
    except Exception:
        import traceback
        mod, broken = None, traceback.format_exc()

    if broken is None and (a.replay or a.index is not None):
        if a.replay:
            with open(a.replay) as f:
                r = json.load(f)
        else:
            r = {'scenario': a.scenario, 'index': a.index, 'seed': seed, 'tier': tier}
        if hasattr(mod, 'worker_init'):
            mod.worker_init()
        fn = {s[0]: s[1] for s in mod.SCENARIOS}[r['scenario']]
        case, msg = common.run_case(mod, prop, r['scenario'], fn, r['index'], r['seed'], r['tier'], set(known))
        print('events:', case.events, 'oracle checks:', case.checks, 'known:', case.knowns)
        if msg is None:
            print('held')
            return 0
        print(msg)
        print(f'VIOLATION property={prop} replay={a.replay}')
        return 1

    results, dead, plan = [], [], []
    if broken is None:
        for s in mod.SCENARIOS:
            if a.scenario and s[0] != a.scenario:
                continue
            n = s[2] * QUICK.get(prop, 1)
            n = int(round((n if tier == 'quick' else max(s[3], 8 * n)) * a.factor))
            plan.append((s[0], s[1], max(n, 1)))
        budget = 200 if tier == 'quick' else 840
        results, dead = common.run_workers(mod, prop, plan, seed, tier, budget, set(known), a.workers)

    def total(field):
        out = {}
        for r in results:
            for k, v in r[field].items():
                out[k] = out.get(k, 0) + v
        return out

    violations = [v for r in results for v in r['violations']]
    violations += [{'scenario': None, 'index': None, 'message': d} for d in dead]
    if broken is not None:
        violations.append({'scenario': None, 'index': None, 'message': broken})
    sigs = {}
    for r in results:
        for k, s in r['sigs'].items():
            sigs.setdefault(k, set()).update(s)
    per = total('per')
    knowns = total('knowns')
    monitors = {}
    for r in results:
        for k, v in r['monitors'].items():
            if isinstance(v, dict):
                t = monitors.setdefault(k, {})
                for kk, vv in v.items():
                    t[kk] = t.get(kk, 0) + vv
            else:
                monitors[k] = monitors.get(k, 0) + v
    samples, seen = [], set()
    for r in results:
        for s in r['samples']:
            if s['scenario'] not in seen:
                seen.add(s['scenario'])
                samples.append(s)
    ev = total('ev')
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': sum(per.values()),
            'distinct_nontrivial': sum(len(s) for s in sigs.values()),
            'rule': getattr(mod, 'RULE', 'cases drawn by the generators of the scenarios; distinct: different '
                                         'operation/parameters/shape/data fingerprints'),
            'samples': samples[:12] or [{'note': 'no case completed'}],
            'oracle_checks': sum(r['checks'] for r in results),
            'cases_per_scenario': per,
            'distinct_per_scenario': {k: len(v) for k, v in sigs.items()},
            'events_observed': dict(sorted(ev.items())),
            'monitors': monitors,
            'known_findings_observed': knowns,
            'stopped_by_time_budget': any(r['cut'] for r in results),
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(violations),
    }
    with open(os.path.join(common.EVIDENCE, f'{prop}.json'), 'w') as f:
        json.dump(evidence, f, indent=1, default=str)

    for k in sorted(knowns):
        print(f"KNOWN-FINDING: property={prop} {k} {known[k]['what']} (observed {knowns[k]} times)")
    print(f"{prop} {tier} seed={seed}: {evidence['coverage']['evaluations']} executions, "
          f"{evidence['coverage']['distinct_nontrivial']} distinct, "
          f"{evidence['coverage']['oracle_checks']} oracle checks, {evidence['wall_s']} s"
          + (' (time budget reached)' if evidence['coverage']['stopped_by_time_budget'] else ''))
    for n, v in enumerate(violations[:5]):
        path = os.path.join(replays, f"{prop}-{v['scenario']}-{v['index']}.json")
        with open(path, 'w') as f:
            json.dump({'property': prop, 'seed': seed, 'tier': tier, **v}, f, indent=1)
        print(f"{v['scenario']} #{v['index']}: {v['message']}")
        print(f'VIOLATION property={prop} replay={path}')
    return 1 if violations else 0


if __name__ == '__main__':
    sys.exit(main())
