"""Replays a counterexample against /repo's real code.  Usage: python -m sx.replay FILE

Plain Python: no solver, no instrumentation.  Exit 1 when the property is violated."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def tuples(x):
    if isinstance(x, list):
        return tuple(tuples(y) for y in x)
    if isinstance(x, dict):
        return {k: tuples(v) for k, v in x.items()}
    return x


def main(path):
    from sx.run import run_concrete
    with open(path) as f:
        r = json.load(f)
    status, msg, _ = run_concrete(r['module'], r['function'], tuples(r['params']), r['inputs'],
                                  r.get('known', ()))
    print('%s: %s' % (status, msg))
    return 1 if status == 'fail' else 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1]))
