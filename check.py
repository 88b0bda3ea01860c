#!/usr/bin/env python3
"""check.py ID...: runs the checks of these properties (all without arguments). --thorough: deeper;
--setup: builds all."""
import importlib, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.chdir(os.path.dirname(os.path.abspath(__file__)))
if "--thorough" in sys.argv:
    sys.argv.remove("--thorough")
    os.environ["VERIF_TIER"] = "thorough"
from vlib import build

ALL = [f[:-3].upper() for f in sorted(os.listdir("checks")) if f.startswith("c") and f.endswith(".py")]


def main(argv):
    if "--setup" in argv:
        specs = {}
        for p in ALL:
            m = importlib.import_module("checks." + p.lower())
            for k, v in m.BUILD.items():
                specs[p + "/" + k] = v
        t = time.time()
        build.build(specs)
        print(f"built {len(specs)} executables in {time.time() - t:.1f} s")
        return 0
    if "--only" in argv:
        i = argv.index("--only")
        os.environ["VERIF_ONLY"] = argv[i + 1]
        del argv[i:i + 2]
    worst = 0
    for p in argv or ALL:
        m = importlib.import_module("checks." + p.lower())
        try:
            exe = build.build(m.BUILD)
        except build.BuildError as e:
            print(f"{p}: cannot build the code under test: {e}")
            return 2
        worst = max(worst, m.main(exe))
    return worst


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
