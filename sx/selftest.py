"""Setup: check that the tools the executor needs are present and agree."""
import sys
sys.dont_write_bytecode = True
import subprocess, os


def main():
    import sx                                        # noqa: F401
    import z3
    import numpy, simpleparse, pydispatch            # noqa: F401
    s = z3.Solver()
    x = z3.Real('x')
    s.add(x * x == 2, x > 0)
    assert s.check() == z3.sat
    r = subprocess.run([sys.executable, '-B', '-m', 'sx.selftest_tag', '200'], cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    sys.exit(r.returncode)


if __name__ == '__main__':
    main()
