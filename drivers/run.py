"""Executes a plan on the code under test: run.py <driver> <plan.ndjson> <log.ndjson>

Each line of the plan is one history; the driver's run(history) returns the list of recorded events.
"""
import importlib, json, os, sys, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    name, plan, log = sys.argv[1:4]
    import spherical_functions
    root = os.path.realpath(os.environ.get('VERIF_REPO', '/repo'))
    assert os.path.realpath(spherical_functions.__file__).startswith(root + os.sep), spherical_functions.__file__
    mod = importlib.import_module(name)
    with open(log, 'w') as out:
        for line in open(plan):
            p = json.loads(line)
            ev = mod.run(p)
            out.write(json.dumps(dict(h=p['h'], ev=ev)) + '\n')
            out.flush()


if __name__ == '__main__':
    main()
