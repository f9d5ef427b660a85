"""B02: the same sources always give the same files.

Enumerated: the order in which the compiler's maps are iterated (every start slot,
fixed or moving, x hash seeds), for a project that fills the compiler's maps and
the whole library, all commands.  Every order must write the same bytes, and
building over an earlier build must not touch a file."""
import itertools
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import cc
import orders
import rt
import vf

deep = not vf.quick()
CMDS = [("srcjs",), ("srcjava",), ("srccpp",), ("srccsharp",), ("srckotlin",), ("testjs",), ("testjava",),
        ("testcpp",), ("testcsharp",), ("testkotlin",), ("doc",)]
EXTRA = "".join("  (cmd test%s :code :test :lang :%s :path ../out/%s/test)\n" % (l, l, l)
                for l in ("js", "java", "cpp", "csharp", "kotlin")) + "  (cmd doc :code :doc :path ../out/doc)\n"


def sources():
    n = 10
    a = "(package probe/a\n :libs (lib type :path vx/type) (lib collection :path vx/collection))\n\n"
    for k in range(n):
        a += "(type t%d : struct :properties [%s])\n" % (k, " ".join("p%d : int" % i for i in range(k + 1)))
        a += "(type l%d : list :allowtypes [t%d])\n(type m%d : map :allowtypes [t%d])\n" % (k, k, k, k)
        a += "(type w%d : struct :traits [t0 t1] :properties [q%d : t%d r%d : l%d s%d : m%d])\n" % (k, k, k, k, k, k, k)
        a += "(const k%d : int %s)\n" % (k, "(+ k%d 1)" % (k + 3) if k + 3 < n else str(k))
        a += "(const c%d : t%d (t%d :p0 k%d))\n" % (k, k, k, (k * 7) % n)
    for k in range(n):
        a += "(func f%d : int [%s] (+ a0 k%d) :test (test 1 (f%d%s)))\n" % (
            k, " ".join("a%d : int" % i for i in range(k + 1)), k, k, " 1" * (k + 1))
        a += "(func ov : int [a1 : t%d] %d)\n(func ov2 : t%d [a1 : int] (t%d :p0 a1))\n" % (k, k, k, k)
        a += "(func h%d : int [a1 : int] (let [%s] (+ a1 %s)))\n" % (
            k, " ".join("b%d : int := %d" % (i, i) for i in range(k + 1)), " ".join("b%d" % i for i in range(k + 1)))
        a += "(func o%d : int [] (ov (ov2 : t%d 3)))\n" % (k, k)
    a += "(func gen : any-1 [ga : any-1 gb : list-1 gc : map-2 gd : any-2] ga)\n"
    a += "(func lam : intlist [z1 : int] (list<-list : intlist (intlist 1 z1) (fn : int [z2 : int] (+ z1 z2 k1))))\n"
    out = {"probe/a": a}
    for p in "bcdefghijk":
        out["probe/" + p] = ("(package probe/%s\n :libs (lib a :path probe/a)%s)\n\n" % (
            p, " (lib prev :path probe/%s)" % chr(ord(p) - 1) if p > "b" else "")
            + "(type u : struct :properties [x : a/t1 y : a/w2])\n(const v : int (+ a/k1 %s))\n" % ("prev/v" if p > "b" else "1")
            + "(func g : int [n1 : int] (+ n1 (a/f0 v) (a/ov (a/ov2 : a/t4 1))))\n")
    return out


def main():
    rep = vf.Report("B02", "model_checking")
    C = cc.CC("B02")
    O = orders.Orders(os.path.join(C.dir, "orders"))
    prj = rt.PROJECT % {"dist": vf.DIST, "cmds": EXTRA}
    src = sources()
    O.build(0, 0, 1)                          # the library of the run time is built once
    sched = [(s, d, seed) for seed in ((1, 2, 3, 5) if deep else (1,)) for d in ((0, 1, 3) if deep else (0, 1))
             for s in range(8)] + ([] if deep else [(0, 0, 2), (3, 1, 3)])

    def one(sch):
        compiler = O.build(*sch) if sch else C.compiler
        wdir = C.workdir()
        C.write(wdir, src, project=prj)
        rc, log = C.run(wdir, [c[0] for c in CMDS], compiler=compiler)
        out = os.path.join(wdir, "out")
        files = cc.tree(out)
        # building again, in another order, leaves every file alone
        for d, _, names in os.walk(out):
            for n in names:
                os.utime(os.path.join(d, n), (1000000000, 1000000000))
        C.run(wdir, [c[0] for c in CMDS])
        touched = [os.path.relpath(os.path.join(d, n), out) for d, _, names in os.walk(out) for n in names
                   if os.stat(os.path.join(d, n)).st_mtime != 1000000000]
        touched = [t for t in touched if "resources" not in t]      # test data is copied every time
        C.drop(wdir)
        return sch, log, files, touched
    _, log, base, touched = one(None)
    if len(base) < 100:
        rep.violation("refused", "the project is refused:\n" + log[:1500], {"sources": src, "log": log[:8000]})
    results = [(None, log, base, touched)] + cc.parallel(one, sched, 6)
    compared = 0
    for sch, log, files, touched in results:
        diff = sorted(k for k in set(files) | set(base) if files.get(k) != base.get(k))
        compared += len(files)
        for kind, names in (("differ", diff), ("touched", touched)):
            if not names:
                continue
            again = one(sch)
            names = sorted(k for k in set(again[2]) | set(base) if again[2].get(k) != base.get(k)) if kind == "differ" else again[3]
            if not names:
                raise vf.CheckError("not reproducible under a fixed order: %s" % (sch,))
            detail = ""
            if kind == "differ" and names[0] in base and names[0] in again[2]:
                x, y = base[names[0]].decode("utf-8", "replace").split("\n"), again[2][names[0]].decode("utf-8", "replace").split("\n")
                k = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
                detail = "line %d: %r / %r" % (k + 1, x[k:k + 1], y[k:k + 1])
            rep.violation("%s %s" % (kind, names[0]), "map iteration start %s: %s: %s %s" % (
                sch, "files differ from the first build" if kind == "differ" else "an unchanged rebuild rewrites files",
                names[:6], detail), {"order": sch, "files": names, "sources": src, "detail": detail})
    for s in sched[:6]:
        rep.sample({"start": s[0], "stride": s[1], "seed": s[2], "files": len(base)})
    rep.coverage = {"states": len(sched), "transitions": C.runs, "traces_validated_against_impl": compared,
                    "files_per_build": len(base)}
    rep.assumptions = ["the order of map iteration is the compiler's only source of nondeterminism; it starts no goroutines"]
    return rep.finish()


vf.main(main)
