"""Warm the build caches the checks share (compiler, generated C++ core)."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import rt
import vf


def main():
    for name, sanitize in (("setup", False), ("setup-asan", True)):
        s = rt.Session(name, rt.LANGS if not sanitize else ("cpp",), sanitize=sanitize)
        s.argtypes = {"int", "any"}
        s.package("probe/p", "(package probe/p)\n\n(func one : int\n [a : int]\n (+ a 1))\n", {"one": ["int"]})
        try:
            s.build()
            print(name, s.call([("probe/p", "one", [1])]))
        except rt.BuildFailure as e:
            # the checks report what is wrong; setup only warms caches
            print("setup:", e.lang, e.stage, e.out[:500])
    return 0


if __name__ == "__main__":
    vf.main(main)
