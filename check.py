#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N] [--replay FILE]"""
import argparse, json, os, sys, traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import checks, harness


def main():
    a = argparse.ArgumentParser()
    a.add_argument('pid')
    a.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    a.add_argument('--replay')
    a = a.parse_args()
    if a.pid == 'setup':      # the machinery checks itself: the arithmetic against its definition
        c = harness.Check('setup', 'quick', 1)
        try:
            c.model_check('MCBig', workers=4)
            return 0
        finally:
            c.close()
    if a.replay:
        old = json.load(open(a.replay))
        a.tier, a.seed = old.get('tier', a.tier), old.get('seed', a.seed)
    c = harness.Check(a.pid, a.tier, a.seed)
    try:
        f = checks.CHECKS[a.pid]
        if a.replay:
            return checks.replay(c, f, old['violations'])
        return f(c)
    except harness.Broken as e:
        print('CHECK BROKEN:', e, file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        c.close()


if __name__ == '__main__':
    sys.exit(main())
