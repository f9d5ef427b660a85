"""Compiler harness: run the command line program built from /repo on enumerated
projects and look at what a user sees - the messages it prints and the files it
writes.

Acceptance of many small declarations is decided in batches: the compiler
reports an error for every faulty declaration together with the declaration's
name, so a batch is compiled, the named declarations are taken out, and the
rest is compiled again until the batch is accepted.  A batch that is refused
without naming one of its declarations is split in halves, so the verdict never
depends on how messages are worded.
"""
import concurrent.futures
import itertools
import os
import re
import shutil

import rt
import vf

HEAD = """(package %s
 :libs
  (lib collection :path vx/collection)
  (lib type :path vx/type))

"""
MARK = {
    "js": ("js/src/%s.js", str),
    "java": ("java/src/main/java/com/vxlisp/%s.java", None),
    "cpp": ("cpp/src/main/%s.cpp", str),
    "csharp": ("csharp/%s.cs", lambda p: "/".join(x[0].upper() + x[1:] for x in p.split("/"))),
    "kotlin": ("kotlin/com/vxlisp/%s.kt", None),
}


def outfile(lang, pkg):
    pat, conv = MARK[lang]
    if conv is None:
        conv = lambda p: rt.java_file(p)[:-5]
    return pat % conv(pkg)


class Result:
    def __init__(self, ok, log, out):
        self.ok = ok
        self.log = log
        self.out = out

    def read(self, lang, pkg="probe/p"):
        with open(os.path.join(self.out, outfile(lang, pkg)), encoding="utf-8", newline="") as f:
            return f.read()

    def files(self):
        return tree(self.out)


def tree(root):
    """{relative path: content} of every file below root"""
    res = {}
    for d, _, names in os.walk(root):
        for n in names:
            path = os.path.join(d, n)
            with open(path, "rb") as f:
                res[os.path.relpath(path, root)] = f.read()
    return res


class CC:
    def __init__(self, name):
        self.dir = vf.fresh_dir(os.path.join(vf.WORK, "cc", name))
        self.compiler = vf.build_compiler(os.path.join(self.dir, "vxlisp"))
        self.runs = 0
        self.serial = itertools.count(1)

    def workdir(self):
        return os.path.join(self.dir, "w%d" % next(self.serial))

    def drop(self, wdir):
        if wdir.startswith(self.dir + os.sep + "w"):
            shutil.rmtree(wdir, ignore_errors=True)

    def write(self, wdir, packages, cmds="", project=None):
        prj = os.path.join(wdir, "prj")
        os.makedirs(prj, exist_ok=True)
        if project is None:
            project = rt.PROJECT % {"dist": vf.DIST, "cmds": cmds}
        with open(os.path.join(prj, "project.vxlisp"), "w", newline="") as f:
            f.write(project)
        for name, text in packages.items():
            path = os.path.join(prj, name + ".vxlisp")
            os.makedirs(os.path.dirname(path), exist_ok=True)
            data = text if isinstance(text, bytes) else text.encode("utf-8", "surrogatepass")
            with open(path, "wb") as f:
                f.write(data)
        return prj

    def run(self, wdir, cmds=("srcjs",), timeout=300, compiler=None):
        self.runs += 1
        p = vf.run([compiler or self.compiler] + list(cmds) + ["--path", os.path.join(wdir, "prj")],
                   cwd=wdir, timeout=timeout)
        return p.returncode, p.stdout.decode("utf-8", "replace")

    def compile(self, packages, langs=("js",), wdir=None, keep=False, project=None):
        """-> Result; ok means every language's file of every package was
        written and nothing was reported as an error"""
        wdir = wdir or self.workdir()
        self.write(wdir, packages, project=project)
        logs = []
        ok = True
        for lang in langs:
            rc, log = self.run(wdir, ["src" + lang])
            logs.append(log)
            ok = ok and rc == 0 and all(
                os.path.exists(os.path.join(wdir, "out", outfile(lang, pkg))) for pkg in packages)
        res = Result(ok, "\n".join(logs), os.path.join(wdir, "out"))
        res.dir = wdir
        if not keep:
            self.drop(wdir)
        return res

    # ------------------------------------------------------------- verdicts
    def verdicts(self, decls, before="", head=None, alone=False):
        """decls: {name: declaration text} (names unique, not prefixes of each
        other).  -> ({name: accepted}, {name: message})"""
        head = (head or HEAD % "probe/p") + before
        verdict = {}
        why = {}

        def attempt(names):
            res = self.compile({"probe/p": head + "\n".join(decls[n] for n in names) + "\n"})
            return res.ok, res.log

        def solve(names):
            while names:
                ok, log = attempt(names)
                if ok:
                    for n in names:
                        verdict[n] = True
                    return
                if len(names) == 1:
                    verdict[names[0]] = False
                    why[names[0]] = log[:1500]
                    return
                left = set(names)
                bad = {}
                for m in re.finditer(r"(?m)^Error: *(?:[^\n]*/)?probe/p/([^/\s]+)", log):
                    if m.group(1) in left and m.group(1) not in bad:
                        bad[m.group(1)] = log[m.start():m.start() + 1200]
                if not bad or alone:
                    mid = len(names) // 2
                    solve(names[:mid])
                    solve(names[mid:])
                    return
                for n, msg in bad.items():
                    verdict[n] = False
                    why[n] = msg
                names = [n for n in names if n not in bad]

        names = list(decls)
        size = max(1, min(150, (len(names) + vf.NCPU - 1) // vf.NCPU))
        chunks = [names[i:i + size] for i in range(0, len(names), size)]
        with concurrent.futures.ThreadPoolExecutor(vf.NCPU) as ex:
            for f in [ex.submit(solve, c) for c in chunks]:
                f.result()
        return verdict, why

    def confirm(self, decl, before="", head=None):
        """one declaration on its own: accepted?"""
        res = self.compile({"probe/p": (head or HEAD % "probe/p") + before + decl + "\n"})
        return res.ok, res.log


def parallel(fn, items, workers=None):
    with concurrent.futures.ThreadPoolExecutor(workers or vf.NCPU) as ex:
        return list(ex.map(fn, items))
