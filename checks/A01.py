"""A01: what the generated application does when it starts.

Enumerated: main functions (given or not, with and without context, in the
library, in a user package, using other packages) x context functions (given or
not, in the library, in the same package, in another one, using the arguments)
x command lines, for three targets.  The application must print what the main
function returns for these arguments in the context the context function makes."""
import itertools
import os
import re
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import cc
import rt
import vf

deep = not vf.quick()
KIND = """(func %(n)s : context
 [args : anylist :...]
 (context
  :code (string "%(n)s" args)
  :session (session :user (user :username "%(u)s"))
  :setting (setting :pathmap (stringmap :%(u)s "/at/%(u)s"))))
"""
PACKS = {
    "probe/k": cc.HEAD % "probe/k" + KIND % {"n": "context-far", "u": "bob"} + KIND % {"n": "make", "u": "cid"},
    "probe/h": cc.HEAD % "probe/h" + """(func who-is : string
 (string "[" (:username (user<-context)) "]")
 :context)
(func who-is : string
 [n : int]
 (string n (who-is))
 :context)
(func code-of : string
 [pre : string]
 (string pre (:code context))
 :context)
""",
    "probe/m": cc.HEAD.replace("(lib collection", "(lib h :path probe/h)\n  (lib collection") % "probe/m" + KIND % {"n": "context-here", "u": "ann"} + """
(func run-plain : string
 [args : anylist :...]
 (string "<" args ">"))
(func run-count : string
 [args : anylist :...]
 (string (length args)))
(func run-code : string
 [args : anylist :...]
 (string "code " (:code context) "/" args)
 :context)
(func run-user : string
 [args : anylist :...]
 (string (:username (user<-context)) "|" args)
 :context)
(func run-far : string
 [args : anylist :...]
 (string (who-is) (who-is 4) (code-of "=") args)
 :context)
(func run-let : string
 [args : anylist :...]
 (let
  [u1 : user := (user<-context)
   u2 : string := (who-is 5)]
  (if
   (then (= "" (:username u1)) "nobody")
   (else (string (:username u1) u2))))
 :context)
(func run-path : string
 [args : anylist :...]
 (string (:bob (:pathmap (setting<-context))) "#" (:ann (:pathmap (setting<-context))))
 :context)
(func first : string
 [args : anylist :...]
 (if
  (then (= 0 (length args)) "none")
  (else (string "first " (any<-list : string args 1)))))
"""}
# name -> (user, code prefix) of the context it makes
CONTEXTS = {None: ("", None), "vx/core/context-main": ("", None), "probe/m/context-here": ("ann", "context-here"),
            "probe/k/context-far": ("bob", "context-far"), "probe/k/make": ("cid", "make")}
MAINS = [None, "vx/core/main", "probe/m/run-plain", "probe/m/run-count", "probe/m/run-code", "probe/m/run-user", "probe/m/run-far",
         "probe/m/run-let", "probe/m/first"]
LINES = [[], ["a"], ["a", "b"], ["a b", "c"], ["", "x"], ["é中"], ['q"r'], ["-h", "--path"], ["1", "2", "3", "4"], ["$x", "a\\n", "'"]]


def model(main, context, args):
    user, name = CONTEXTS[context]
    code = "" if name is None else name + "".join(args)
    text = "".join(args)
    if main in (None, "vx/core/main"):
        return text
    return {"run-plain": "<" + text + ">", "run-count": str(len(args)), "run-code": "code " + code + "/" + text,
            "run-user": user + "|" + text, "run-far": "[" + user + "]4[" + user + "]=" + code + text,
            "run-let": user + "5[" + user + "]" if user else "nobody",
            "first": "first " + args[0] if args else "none"}[main.split("/")[-1]]


def main():
    rep = vf.Report("A01", "model_checking")
    C = cc.CC("A01")
    variants = list(itertools.product(MAINS, CONTEXTS))
    work = C.workdir()
    cmds = ""
    names = {}
    for k, (m, c) in enumerate(variants):
        for lang in rt.LANGS:
            tail = {"js": "js/src", "java": "java/src/main/java", "cpp": "cpp/src/main"}[lang]
            names[(k, lang)] = "%s%d" % (lang, k)
            cmds += "  (cmd %s%d :code :source :lang :%s :path ../out/v%d/%s%s%s)\n" % (
                lang, k, lang, k, tail, " :main " + m if m else "", " :context " + c if c else "")
    C.write(work, PACKS, project=rt.PROJECT % {"dist": vf.DIST, "cmds": cmds})
    log = C.run(work, list(names.values()))[1]
    done = [0]

    def shell(cmd, cwd):
        p = vf.run(cmd, cwd=cwd, timeout=800)
        return p.returncode, p.stdout.decode("utf-8", "replace")

    def out(k, *p):
        return os.path.join(work, "out", "v%d" % k, *p)

    shared = {}

    def app_js(k):
        d = out(k, "js")
        with open(os.path.join(d, "package.json"), "w") as f:
            f.write('{"type":"module"}\n')
        with open(os.path.join(d, "start.mjs"), "w") as f:
            f.write('import app from "./src/app.js"\nimport fs from "node:fs"\n'
                    'for (const a of JSON.parse(fs.readFileSync("lines.json", "utf8"))) '
                    'console.log("@@" + Buffer.from(await app.f_main(a)).toString("hex"))\n')
        with open(os.path.join(d, "lines.json"), "w") as f:
            import json
            json.dump(LINES, f)
        rc, text = shell(["node", "start.mjs"], d)
        if rc:
            return "start", text
        got = [bytes.fromhex(l[2:]).decode() for l in text.split("\n") if l.startswith("@@")]
        return None, got

    def each(cmd, cwd):
        got = []
        for args in LINES:
            rc, text = shell(cmd + args, cwd)
            if rc:
                return "start", text
            got.append(text[:-1] if text.endswith("\n") else text)
        return None, got

    def app_java(k):
        d = out(k, "java")
        src = next((os.path.join(r, "App.java") for r, _, ns in os.walk(d) if "App.java" in ns), None)
        if src is None:
            return "generate", log
        # the libraries are the same for every variant: compile them once
        rc, text = shell(["javac", "-nowarn", "-encoding", "UTF-8", "-proc:none", "-implicit:none", "-cp", shared["java"],
                          "-d", "classes", os.path.relpath(src, d)], d)
        if rc:
            return "compile", text
        with open(src) as f:
            pk = re.search(r"^package ([\w.]+);", f.read(), re.M)
        return each(["java", "-XX:TieredStopAtLevel=1", "-Xshare:auto", "-Dfile.encoding=UTF-8", "-Dsun.jnu.encoding=UTF-8",
                     "-Dstdout.encoding=UTF-8", "-cp", "classes:" + shared["java"], (pk.group(1) + "." if pk else "") + "App"], d)

    def app_cpp(k):
        d = out(k, "cpp")
        rc, text = shell(["ccache", "g++", "-std=c++20", "-O0", "-w", "-c", "src/main/app.cpp", "-o", "app.o"], d)
        if rc:
            return "compile", text
        rc, text = shell(["g++", "app.o"] + shared["cpp"] + ["-pthread", "-o", "app"], d)
        if rc:
            return "link", text
        return each(["./app"], d)

    # libraries of the first variant serve the others
    d = out(0, "java")
    if not os.path.isdir(d) or not os.path.isdir(out(0, "cpp")) or not os.path.isdir(out(0, "js")):
        rep.violation("generate", "a correct project with mains and contexts is refused: %s" % log[-1500:], {"packages": PACKS, "log": log[-6000:]})
        rep.exhaustive = False
        rep.coverage = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0}
        return rep.finish()
    srcs = [os.path.relpath(os.path.join(r, n), d) for r, _, ns in os.walk(d) for n in ns if n.endswith(".java") and n != "App.java"]
    rc, text = shell(["javac", "-nowarn", "-encoding", "UTF-8", "-proc:none", "-d", "lib"] + srcs, d)
    if rc:
        raise vf.CheckError("library: " + text[-3000:])
    shared["java"] = os.path.join(d, "lib")
    d = out(0, "cpp")
    units, todo = [], ["probe/m", "probe/k", "probe/h", "vx/core"]
    while todo:
        u = os.path.normpath(todo.pop())
        if u in units or not os.path.exists(os.path.join(d, "src/main", u + ".cpp")):
            continue
        units.append(u)
        for ext in (".cpp", ".hpp"):
            with open(os.path.join(d, "src/main", u + ext), encoding="utf-8") as f:
                todo += [os.path.join(os.path.dirname(u), i) for i in re.findall(r'#include "([^"]+)\.hpp"', f.read())]

    def unit(u):
        return shell(["ccache", "g++", "-std=c++20", "-O0", "-w", "-c", "src/main/%s.cpp" % u, "-o", u.replace("/", "__") + ".o"], d)
    for rc, text in cc.parallel(unit, units):
        if rc:
            raise vf.CheckError("library: " + text[-3000:])
    shared["cpp"] = [os.path.join(d, u.replace("/", "__") + ".o") for u in units]

    def one(job):
        k, lang = job
        return job, {"js": app_js, "java": app_java, "cpp": app_cpp}[lang](k)
    for (k, lang), (stage, got) in cc.parallel(one, [(k, l) for k in range(len(variants)) for l in rt.LANGS]):
        m, c = variants[k]
        label = "%s main %s context %s" % (lang, m, c)
        if stage:
            if one((k, lang))[1][0] is None:
                raise vf.CheckError("not reproducible: " + label)
            rep.violation(label + " " + stage, "%s: the application does not %s: %s" % (label, stage, got[-1000:]),
                          {"language": lang, "main": m, "context": c, "packages": PACKS, "output": got[-6000:]})
            continue
        want = [model(m, c, a) for a in LINES]
        done[0] += len(got)
        for a, g, w in itertools.zip_longest(LINES, got, want):
            if g != w:
                rep.violation("%s args %r" % (label, a), "%s started with %r prints %r, expected %r" % (label, a, g, w),
                              {"language": lang, "main": m, "context": c, "arguments": a, "packages": PACKS})
        rep.sample({"language": lang, "main": m, "context": c, "arguments": LINES[3], "printed": want[3]})
    rep.coverage = {"states": len(variants), "transitions": len(variants) * len(LINES), "traces_validated_against_impl": done[0]}
    rep.assumptions = ["asynchronous main and context functions are not part of the claim",
                       "the JavaScript application is started by calling its entry function with the list of arguments"]
    return rep.finish()


vf.main(main)
