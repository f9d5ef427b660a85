"""B04: commands given together write what each writes alone.

Enumerated: every ordered pair (thorough: every ordered triple of a subset) of
the project's commands, repeated commands, both ways of writing the path option,
and shared, nested or separate output directories."""
import itertools
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import cc
import rt
import vf

deep = not vf.quick()
LANGS = ("js", "java", "cpp", "csharp", "kotlin")
EXTRA = "".join("  (cmd test%s :code :test :lang :%s :path ../out/t%s/test)\n" % (l, l, l) for l in LANGS) \
    + "  (cmd doc :code :doc :path ../out/doc)\n" \
    + "  (cmd mainjs :code :source :lang :js :path ../out/mjs :main probe/a/main)\n" \
    + "  (cmd mainjava :code :source :lang :java :path ../out/mjava :main probe/a/main :context vx/core/context-main)\n" \
    + "  (cmd maincpp :code :source :lang :cpp :path ../out/mcpp :main probe/a/main)\n"
CMDS = ["src" + l for l in LANGS] + ["test" + l for l in LANGS] + ["doc", "mainjs", "mainjava", "maincpp"]
SRC = {
    "probe/a": """(package probe/a
 :libs (lib type :path vx/type) (lib collection :path vx/collection))

(type pt : struct :properties [x : int name : string] :doc "a point")
(type ptlist : list :allowtypes [pt])
(const origin : pt (pt :name "o") :doc "where it starts")
(func main : string [args : anylist] "hello" :doc "starts here")
(func slow : int :async [n : int] (async n))
(func use : int :async [n1 : int] (let [s1 : int := (slow n1)] (+ s1 1)))
(func pick : any-1 [p1 : any-1 p2 : any-1 p3 : boolean] (if : any-1 (then p3 p1) (else p2)))
(func twice : intlist [ns : intlist] (list<-list : intlist ns (fn : int [k : int] (+ k k)))
 :test (test (intlist 2) (twice (intlist 1)))
       (test (intlist) (twice (intlist))))
(func over : int [o : int] o)
(func over : int [o : string] 1)
""",
    "probe/b": """(package probe/b
 :libs (lib a :path probe/a))

(type box : struct :traits [a/pt] :properties [y : int])
(func mk : box [v : int] (box :y v :x v) :test (test 3 (:x (mk 3))))
""",
}


def main():
    rep = vf.Report("B04", "model_checking")
    C = cc.CC("B04")
    prj = rt.PROJECT % {"dist": vf.DIST, "cmds": EXTRA}

    def one(run, form="--path"):
        wdir = C.workdir()
        C.write(wdir, SRC, project=prj)
        if form == "--path":
            rc, log = C.run(wdir, list(run))
        elif form == "relative":
            C.runs += 1
            p = vf.run([C.compiler] + list(run) + ["--path", "prj"], cwd=wdir, timeout=300)
            log = p.stdout.decode("utf-8", "replace")
        else:
            C.runs += 1
            p = vf.run([C.compiler] + list(run) + [":path", os.path.join(wdir, "prj")], cwd=wdir, timeout=300)
            log = p.stdout.decode("utf-8", "replace")
        files = cc.tree(os.path.join(wdir, "out"))
        C.drop(wdir)
        return run, form, log, files
    alone = {}
    for run, _, log, files in cc.parallel(one, [(c,) for c in CMDS]):
        alone[run[0]] = files
        if not files:
            rep.violation("alone " + run[0], "the command %s alone is refused: %s" % (run[0], log[:800]), {"log": log})
    runs = [(a, b) for a in CMDS for b in CMDS]
    runs += [tuple(CMDS), tuple(reversed(CMDS))]
    if deep:
        few = ["srcjs", "srccpp", "srcjava", "testcpp", "testjs", "doc", "mainjava", "srckotlin"]
        runs += list(itertools.permutations(few, 3))
    jobs = [(r, "--path") for r in runs] + [((c,), f) for c in CMDS for f in (":path", "relative")]
    n = 0
    for run, form, log, files in cc.parallel(lambda j: one(*j), jobs):
        want = {}
        clash = False
        for c in run:
            for k, v in alone[c].items():
                clash = clash or (k in want and want[k] != v)
                want[k] = v
        if clash:
            raise vf.CheckError("commands %s write the same file" % (run,))
        n += 1
        if files == want:
            continue
        again = one(run, form)[3]
        diff = sorted(k for k in set(again) | set(want) if again.get(k) != want.get(k))
        if not diff:
            raise vf.CheckError("not reproducible: %s" % (run,))
        rep.violation("%s %s" % (" ".join(run), form), "commands %s (%s): %d files differ from what the commands write alone: %s\n%s" % (
            " ".join(run), form, len(diff), diff[:4], log[-300:]), {"commands": run, "form": form, "files": diff, "sources": SRC})
        if len(rep.violations) >= 20:
            break
    for j in jobs[::max(1, len(jobs) // 8)]:
        rep.sample({"commands": j[0], "path_option": j[1]})
    rep.coverage = {"states": len(jobs) + len(CMDS), "transitions": C.runs, "traces_validated_against_impl": n}
    return rep.finish()


vf.main(main)
