# coding=utf-8
import argparse
import importlib
import os
import sys
import warnings


def main():
    warnings.simplefilter('ignore')
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('tier', nargs='?', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--workers', type=int, default=int(os.environ.get('DST_WORKERS', '0')) or os.cpu_count() or 1)
    ap.add_argument('--no-evidence', action='store_true')
    ap.add_argument('--hashes', action='store_true', help='print the event log hash of each run')
    ap.add_argument('--show', type=int, help='print a plan and its result')
    args = ap.parse_args()
    from . import core
    sys.path.insert(0, core.REPO)
    core.install_lock_seam()
    core.install_env_seam()
    if args.replay:
        import json
        with open(args.replay) as f:
            doc = json.load(f)
        args.prop = doc['property']
        args.seed = doc['plan'].get('seed', args.seed)
    prop = importlib.import_module('dst.props.%s' % args.prop.lower()).PROP
    prop.seed = args.seed
    from . import runner
    import whatami
    if not os.path.abspath(whatami.__file__).startswith(core.REPO + '/'):
        print('wrong whatami: %s' % whatami.__file__)
        return 2
    if args.replay:
        return runner.replay(prop, args.replay)
    if args.show is not None:
        import json
        prop.prepare()
        plan = runner.plan_for(prop, args.seed, args.show, args.tier)
        print(json.dumps(plan, indent=1))
        print(json.dumps(runner.run_plan(prop, plan), indent=1))
        return 0
    if args.hashes:
        prop.prepare()
        for i in range(args.runs or 100):
            plan = runner.plan_for(prop, args.seed, i, args.tier)
            res = runner.run_plan(prop, plan)
            print(i, res.get('loghash'), (res.get('violation') or {}).get('kind'), (res.get('error') or '')[:200])
        return 0
    return runner.check(prop, args.tier, args.seed, args.workers, nruns=args.runs, evidence=not args.no_evidence)


if __name__ == '__main__':
    try:
        status = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        status = 2
    nodes = sys.modules.get('dst.node')
    if nodes is not None:
        nodes.stop()
    sys.exit(status)
