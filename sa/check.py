#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decides one property on /repo's current source."""
import importlib, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import core, extract


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    t0 = time.time()
    mod = importlib.import_module('rules.' + pid.lower())
    res = core.Result(pid)
    res.rule = (mod.__doc__ or '').strip()
    try:
        mod.run(res, tier)
    except extract.AnalysisBroken as e:
        print('analysis-broken: %s' % e, file=sys.stderr)
        return 3
    return core.finish(res, tier, t0, getattr(mod, 'LEVEL', 'other'), getattr(mod, 'TECHNIQUE', res.rule))


if __name__ == '__main__':
    try: rc = main()
    except Exception:
        traceback.print_exc(); rc = 3
    sys.stdout.flush(); os._exit(rc) if False else sys.exit(rc)
