#!/usr/bin/env python3-vt
"""Entry point of every check: run.py <ID> [--thorough] [--seed N] [--case I] [--replay DIR]; run.py setup builds everything."""
import os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import core
if __name__ == "__main__":
    if sys.argv[1] == "setup":
        import build
        print(build.build_core("asan"))
        sys.exit(0)
    sys.exit(core.run_check(sys.argv[1], sys.argv[2:]))
