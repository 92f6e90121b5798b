"""Entry point: run.py PROPERTY"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib  # noqa: E402


def find(prop):
    import registry
    return registry.CHECKS[prop]


if __name__ == "__main__":
    if len(sys.argv) != 2:
        sys.exit("usage: run.py PROPERTY")
    try:
        check = find(sys.argv[1])
    except KeyError:
        sys.exit("unknown property " + sys.argv[1])
    sys.exit(lib.main(check))
