#!/usr/bin/env python3
"""check.py <property>            run the check of one property (VERIF_SEED, VERIF_TIER)
check.py --replay <file>       run one saved failing case again"""
import json, os, sys, time
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'py'))
sys.dont_write_bytecode = True
import common, level_a
from plan import PLAN


def main():
    if sys.argv[1] == '--replay':
        return common.replay(sys.argv[2])
    prop = sys.argv[1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick') or 'quick'
    t0 = time.time()
    plan = PLAN[prop]
    r = common.Result(prop, seed, tier)
    if plan.get('rt'):
        level_a.run(r, plan['rt'][0 if tier == 'quick' else 1])
    if plan.get('gen'):
        import level_b
        level_b.run(r, plan)
    if plan.get('trees'):
        import level_c
        level_c.run(r, plan)
    import probes
    probes.run(r)
    return common.finish(r, plan, time.time() - t0)


if __name__ == '__main__':
    sys.exit(main())
