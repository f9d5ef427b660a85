"""B01: a project with a fault is reported and nothing is written.

Enumerated: fault x package it is in (first, middle, last of the project, or the
project file) x commands x what the output
directories held before.  After the fault the output must be byte for byte what
it was; after repairing the fault the same command must give the same files as a
build from nothing."""
import itertools
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import cc
import rt
import vf

deep = not vf.quick()
GOOD = {
    "probe/a": "(package probe/a)\n\n(type ta : struct :properties [x : int])\n(const ka : int 3)\n(func fa : int [n : int] (+ n ka))\n",
    "probe/m": "(package probe/m\n :libs (lib a :path probe/a))\n\n(func fm : int [n1 : int] (+ (a/fa n1) 1)\n :test (test 5 (fm 1)))\n",
    "probe/z": "(package probe/z\n :libs (lib m :path probe/m))\n\n(func fz : int [n2 : int] (m/fm n2))\n",
}
# faults that are a declaration added to a package
DECL = {
    "unclosed": "(func bad : int [] (+ 1 2)",
    "closed twice": "(func bad : int [] 1))",
    "open text": "(func bad : string [] \"abc)",
    "bracket mismatch": "(func bad : int [q : int) q)",
    "empty brackets": "()",
    "empty call": "(func bad : int [] ())",
    "unknown return type": "(func bad : gone [] 1)",
    "unknown argument type": "(func bad : int [q : gone] 1)",
    "unknown function": "(func bad : int [] (gone 1))",
    "unknown name": "(func bad : int [] gone)",
    "unknown name in let": "(func bad : int [] (let [w : int := gone] w))",
    "unknown name in lambda": "(func bad : intlist [] (list<-list : intlist (intlist 1) (fn : int [w : int] gone)))",
    "unknown type in lambda": "(func bad : intlist [] (list<-list : intlist (intlist 1) (fn : int [w : gone] 1)))",
    "unknown item type": "(type bad : list :allowtypes [gone])",
    "unknown property type": "(type bad : struct :properties [q : gone])",
    "unknown trait": "(type bad : struct :traits [gone] :properties [q : int])",
    "unknown constant type": "(const bad : gone 1)",
    "unknown constant value": "(const bad : int gone)",
    "unknown constant call": "(const bad : int (gone 1))",
    "unknown property": "(type tb : struct :properties [x : int])\n(func bad : int [q : tb] (:gone q))",
    "wrong argument": "(func bad : int [] (+ 1 \"a\"))",
    "wrong result": "(func bad : int [] \"a\")",
    "wrong constant": "(const bad : int \"a\")",
    "too many arguments": "(func one : int [q : int] q)\n(func bad : int [] (one 1 2))",
    "too few arguments": "(func one : int [q : int r : int] q)\n(func bad : int [] (one 1))",
    "function keyword": "(func bad : int [] 1 :gone)",
    "argument keyword": "(func bad : int [q : int :gone] 1)",
    "type keyword": "(type bad : struct :gone)",
    "constant keyword": "(const bad : int 1 :gone)",
    "unknown form": "(gone bad)",
    "test call": "(func bad : int [] 1 :test (test 1 (gone)))",
    "test of a type": "(type bad : struct :properties [q : int] :test (test 1 (gone)))",
    "test of a constant": "(const bad : int 3 :test (test 1 (gone)))",
    "argument in a test": "(func bad : int [] 1 :test (test 1 (+ 1 \"a\")))",
    "argument in a test of a type": "(type bad : struct :properties [q : int] :test (test 1 (+ 1 \"a\")))",
    "argument in a test of a constant": "(const bad : int 3 :test (test 1 (+ 1 \"a\")))",
}


def fault_package(text, fault):
    if fault in DECL:
        return text + DECL[fault] + "\n"
    if fault == "unknown library":
        return text.replace(")\n", "\n :libs (lib w :path probe/gone))\n", 1) if ":libs" not in text else \
            text.replace(" :libs ", " :libs (lib w :path probe/gone) ", 1)
    if fault == "package keyword":
        return text.replace(")\n", "\n :gone 1)\n", 1)
    if fault == "library keyword":
        return text.replace(" :path probe/", " :gone 1 :path probe/", 1) if ":libs" in text else \
            text.replace(")\n", "\n :libs (lib w :gone 1 :path vx/type))\n", 1)
    raise KeyError(fault)


PKGFAULTS = list(DECL) + ["unknown library", "package keyword", "library keyword"]
PRJFAULTS = ["no project file", "project keyword", "command keyword", "missing library project", "two projects",
             "unclosed project", "unknown command", "unknown command last", "unknown command first"]
CMDS = [("srcjs",), ("srcjava", "srccpp"), ("testjs", "srcjs"), ("srccsharp", "srckotlin", "doc")]
EXTRA = "  (cmd testjs :code :test :lang :js :path ../out/js/test)\n  (cmd doc :code :doc :path ../out/doc)\n"


def project():
    return rt.PROJECT % {"dist": vf.DIST, "cmds": EXTRA}


def main():
    rep = vf.Report("B01", "model_checking")
    C = cc.CC("B01")
    states = 0

    def setup(wdir, packages):
        C.write(wdir, packages, project=project())

    # what each command list writes from nothing
    fresh = {}

    def build(cmds):
        wdir = C.workdir()
        setup(wdir, GOOD)
        rc, log = C.run(wdir, cmds)
        files = cc.tree(os.path.join(wdir, "out"))
        C.drop(wdir)
        return cmds, rc, log, files
    for cmds, rc, log, files in cc.parallel(build, CMDS):
        if rc or not files or "error" in log.lower():
            rep.violation("good " + " ".join(cmds), "a project without faults is refused: %s" % log[:800], {"log": log})
        fresh[cmds] = files
    cases = []
    for fault, cmds in itertools.product(PKGFAULTS, CMDS if deep else CMDS[:3:2]):
        for place in ("probe/a", "probe/m", "probe/z"):
            for before in ("nothing", "built", "other"):
                if not deep and before == "other" and place != "probe/m":
                    continue
                cases.append((fault, place, cmds, before))
    for fault, cmds in itertools.product(PRJFAULTS, CMDS):
        for before in ("nothing", "built", "other"):
            cases.append((fault, "project", cmds, before))

    def one(case):
        fault, place, cmds, before = case
        wdir = C.workdir()
        out = os.path.join(wdir, "out")
        packages, run = dict(GOOD), list(cmds)
        if place != "project":
            packages[place] = fault_package(GOOD[place], fault)
        setup(wdir, GOOD)
        if before != "nothing":
            for name, data in fresh[cmds].items():
                os.makedirs(os.path.dirname(os.path.join(out, name)), exist_ok=True)
                with open(os.path.join(out, name), "wb") as f:
                    f.write(data)
        if before == "other":      # files that the next good build would replace
            for k, name in enumerate(sorted(fresh[cmds])):
                if k % 3 == 0:
                    with open(os.path.join(out, name), "wb") as f:
                        f.write(b"kept\n")
        setup(wdir, packages)
        good = project()
        path = os.path.join(wdir, "prj", "project.vxlisp")
        if place == "project":
            if fault == "no project file":
                os.remove(path)
            else:
                text = {"project keyword": good.replace(" :version", " :gone 1 :version", 1),
                        "command keyword": good.replace("(cmd doc ", "(cmd doc :gone 1 ", 1),
                        "missing library project": good.replace(vf.DIST, vf.DIST + "/gone", 1),
                        "two projects": good + "\n(project again\n :version \"0.1\")\n",
                        "unclosed project": good.rstrip()[:-1] + "\n"}.get(fault, good)
                with open(path, "w") as f:
                    f.write(text)
            if fault == "unknown command":
                run = ["gone"]
            elif fault == "unknown command last":
                run = run + ["gone"]
            elif fault == "unknown command first":
                run = ["gone"] + run
        was = cc.tree(out)
        rc, log = C.run(wdir, run)
        now = cc.tree(out)
        why = None
        if now != was:
            diff = sorted(set(k for k in set(now) | set(was) if now.get(k) != was.get(k)))
            why = "files are written all the same: %s" % diff[:5]
        elif "error" not in log.lower():
            why = "nothing is reported"
        elif "goroutine " in log:
            why = "the compiler crashes"
        # repair and build again
        again = None
        if why is None and (deep or (place in ("probe/m", "project") and before != "built")):
            setup(wdir, GOOD)
            rc2, log2 = C.run(wdir, cmds)
            files = cc.tree(out)
            if files != fresh[cmds]:
                diff = sorted(k for k in set(files) | set(fresh[cmds]) if files.get(k) != fresh[cmds].get(k))
                why = "after the fault is repaired the build differs from a build from nothing: %s %s" % (diff[:5], log2[:200])
        C.drop(wdir)
        return case, why, log
    bad = []
    for case, why, log in cc.parallel(one, cases):
        states += 1
        if why:
            bad.append(case)
    for case in bad[:60]:
        _, why, log = one(case)
        if why is None:
            raise vf.CheckError("%s: not reproducible" % (case,))
        fault, place, cmds, before = case
        rep.violation("%s %s %s %s" % (fault, place, "+".join(cmds), before),
                      "fault '%s' in %s, commands %s, output before: %s: %s\n%s" % (
                          fault, place, " ".join(cmds), before, why, log[-500:]),
                      {"fault": fault, "place": place, "commands": cmds, "before": before, "why": why, "log": log[:4000],
                       "declaration": DECL.get(fault)})
    for c in cases[::max(1, len(cases) // 10)]:
        rep.sample({"fault": c[0], "place": c[1], "commands": c[2], "before": c[3]})
    rep.coverage = {"states": len(cases), "transitions": C.runs, "traces_validated_against_impl": states,
                    "package_faults": len(PKGFAULTS), "project_faults": len(PRJFAULTS)}
    return rep.finish()


vf.main(main)
