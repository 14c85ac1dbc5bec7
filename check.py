#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]"""
import sys, os, time
sys.set_int_max_str_digits(0)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from engine import check, build
import props.registry as registry


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    spec = registry.SPECS[pid]
    try:
        made = spec['make'](tier, seed)
    except build.DriverError as e:
        # the interface the entry points use is gone: nothing can be said about this property
        res = check.Result()
        res.unknown('entry-points', 'the entry points do not compile against this tree: %s' % e)
        print('undecided: %s' % e, file=sys.stderr)
        return check.finish(pid, tier, seed, t0, spec['level'], res, [], [], spec['explain'], spec['assume'], [], 0)
    except build.BuildError as e:
        print('analysis broken: %s' % e, file=sys.stderr)
        return 2
    except Exception:
        import traceback
        e = traceback.format_exc()
        res = check.Result()
        res.unknown('set-up', 'the analysis could not be set up on this tree: %s' % e[-300:])
        print(e, file=sys.stderr)
        return check.finish(pid, tier, seed, t0, spec['level'], res, [('set-up', e)], [], spec['explain'], spec['assume'], [], 0)
    tasks, configs, minimum = made[0], made[1], min(made[2], 20)
    check.LIMIT[0] = t0 + (420 if tier == 'quick' else 5400)
    res, errs, times = check.run_tasks(tasks)
    if len(made) > 3 and not res.violations and (res.unknowns or errs or any(a != b for a, b in res.obl.values())):
        # some obligation was not discharged: refine the abstraction before giving up on it
        check.LIMIT[0] = time.time() + (120 if tier == 'quick' else 900)
        r2, e2, t2 = check.run_tasks(made[3]())
        u = [x for x in res.unknowns if x['location']] or res.unknowns
        for v in r2.violations:
            if not v['location'] and u:
                v['location'], v['function'] = u[0]['location'], u[0]['function']
                v['message'] += ' (undischarged: %s)' % u[0]['message'][:120]
        res.violations += r2.violations
    return check.finish(pid, tier, seed, t0, spec['level'], res, errs, times, spec['explain'], spec['assume'], configs, minimum)


sys.exit(main())
