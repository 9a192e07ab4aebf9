"""Prepares the framework: compiles the TLC module overrides, builds the
extension variants, runs the self-test of the arithmetic module."""
import sys
from . import core


def main():
    core.java_classes()
    core.build_extension()
    core.build_extension('trace')
    res = core.tlc('NumSelfTest')
    if 'Error' in res.out or res.rc != 0:
        print(res.out[-3000:])
        return 1
    print('setup done')
    return 0


if __name__ == '__main__':
    sys.exit(main())
