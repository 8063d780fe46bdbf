"""``python -m mon PROPERTY [--tier quick|thorough] [--replay FILE]``"""
import argparse
import importlib
import json
import os
import sys


def main():
    parser = argparse.ArgumentParser(prog='check')
    parser.add_argument('property')
    parser.add_argument(
        '--tier',
        default=os.environ.get('VERIF_TIER', 'quick'),
        choices=('quick', 'thorough'),
    )
    parser.add_argument(
        '--seed',
        type=int,
        default=int(os.environ.get('VERIF_SEED', '1') or 1),
    )
    parser.add_argument('--replay')
    parser.add_argument('--workload')
    parser.add_argument('--budget', type=float)
    parser.add_argument('--jobs', type=int)
    parser.add_argument('--lines', action='store_true')
    args = parser.parse_args()
    from mon import core
    sys.path.insert(0, core.REPO)
    core.REACH.start()
    import marsh
    location = os.path.realpath(marsh.__file__)
    if not location.startswith(os.path.realpath(core.REPO) + os.sep):
        print(f'ERROR: marsh was imported from {location}')
        return 2
    module = importlib.import_module(f'mon.checks.{args.property.lower()}')
    check = module.check
    budget = args.budget
    if budget is None:
        budget = 240 if args.tier == 'quick' else 780
    if args.replay:
        with open(args.replay) as file:
            replay = json.load(file)
        run = core.Run(check, replay['tier'], replay['seed'])
        workload = next(
            w for w in check.workloads if w.name == replay['workload']
        )
        import signal
        signal.signal(signal.SIGALRM, run._on_alarm)
        run.evaluations = 1
        run.run_case(workload, replay['index'])
        return run.finish(replay=True)
    run = core.Run(check, args.tier, args.seed)
    jobs = args.jobs
    if jobs is None:
        jobs = min(os.cpu_count() or 1, 4 if args.tier == 'quick' else 8)
    run.execute(budget, only=args.workload, jobs=jobs)
    if args.lines:
        for name, (text, missed) in sorted(core.REACH.summary().items()):
            print(f'{name}: {text}, not {missed}')
    return run.finish(replay=bool(args.workload))


if __name__ == '__main__':
    code = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
