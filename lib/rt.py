"""Run-time harness: compile a probe project (which uses /repo/dist/vxlisp as
its parent library project) with the compiler built from /repo, and run the
generated JavaScript, Java and C++ over an enumerated list of calls.

A call is (package, function, [argument values]).  Every language driver dumps
the result by walking the native value, never through the library's own
printing functions, so the three dumps and the reference model's dump can be
compared as plain text.
"""
import concurrent.futures
import os
import re
import subprocess

import vf

LANGS = ("js", "java", "cpp")

PROJECT = """(project probe
 :version    "0.1"
 :javadomain "com.vxlisp"
 :projects   %(dist)s
 :libs
  (lib cpprandom :path "<random>" :lang :cpp)
  (lib javaniofile :path "java.nio.file.*" :lang :java)
  (lib javafuture :path "java.util.concurrent.CompletableFuture" :lang :java)
  (lib javafunction :path "java.util.function.*" :lang :java)
  (lib javacollectors :path "java.util.stream.Collectors" :lang :java)
 :cmds
  (cmd srcjs :code :source :lang :js :path ../out/js/src)
  (cmd srcjava :code :source :lang :java :path ../out/java/src/main/java)
  (cmd srccpp :code :source :lang :cpp :path ../out/cpp/src/main)
  (cmd srccsharp :code :source :lang :csharp :path ../out/csharp)
  (cmd srckotlin :code :source :lang :kotlin :path ../out/kotlin)
%(cmds)s)
"""

# ------------------------------------------------------------------ values


class L(tuple):
    """list value: L(type, items...)"""
    def __new__(cls, typ, *items):
        return tuple.__new__(cls, ("L", typ) + tuple(items))


class M(tuple):
    """map value: M(type, (key, value)...)"""
    def __new__(cls, typ, *pairs):
        return tuple.__new__(cls, ("M", typ) + tuple(tuple(p) for p in pairs))


class S(tuple):
    """struct value: S(type, (prop, value)...)"""
    def __new__(cls, typ, *pairs):
        return tuple.__new__(cls, ("S", typ) + tuple(tuple(p) for p in pairs))


class E(tuple):
    """the empty value of a type"""
    def __new__(cls, typ):
        return tuple.__new__(cls, ("E", typ))


def hexs(s):
    return s.encode("utf-8", "surrogatepass").hex()


def encode(v):
    """argument value -> driver wire format (space separated tokens)"""
    if isinstance(v, bool):
        return "b%d" % (1 if v else 0)
    if isinstance(v, int):
        return "i%d" % v
    if isinstance(v, float):
        return "f%r" % v
    if isinstance(v, str):
        return "s" + hexs(v)
    if isinstance(v, L):
        return " ".join(["L%s,%d" % (v[1], len(v) - 2)] + [encode(x) for x in v[2:]])
    if isinstance(v, (M, S)):
        parts = ["%s%s,%d" % (v[0], v[1], len(v) - 2)]
        for k, x in v[2:]:
            parts.append("s" + hexs(k))
            parts.append(encode(x))
        return " ".join(parts)
    if isinstance(v, E):
        return "E" + v[1]
    raise TypeError(repr(v))


def num(x):
    """canonical text of a number: languages differ in float width"""
    x = float(x)
    if x == int(x) and abs(x) < 1e15:
        return "%d" % int(x)
    return "%.5g" % x


def is_empty_value(v):
    if isinstance(v, (bool, int, float)):
        return not v
    if isinstance(v, str):
        return v == ""
    if isinstance(v, E):
        return True
    if isinstance(v, (L, M, S)):
        return all(is_empty_value(p[1]) for p in v[2:]) if isinstance(v, S) else len(v) == 2
    return False


def text(v):
    """reference-model value -> canonical dump (same text the drivers give)"""
    if isinstance(v, bool):
        return "b1" if v else "b0"
    if isinstance(v, (int, float)):
        return "n" + num(v)
    if isinstance(v, str):
        return "s" + hexs(v)
    if isinstance(v, L):
        return "[%s %s]" % (v[1].split("/")[-1], ",".join(text(x) for x in v[2:]))
    if isinstance(v, M):
        items = sorted((hexs(k), text(x)) for k, x in v[2:])
        return "{%s %s}" % (v[1].split("/")[-1], ",".join("%s=%s" % p for p in items))
    if isinstance(v, S):
        items = sorted((k, text(x)) for k, x in v[2:] if not is_empty_value(x))
        return "<%s %s>" % (v[1].split("/")[-1], ",".join("%s=%s" % p for p in items))
    if isinstance(v, E):
        return "E" + v[1]
    raise TypeError(repr(v))


def canon(line):
    """driver output -> canonical dump (drivers write numbers as #...;)"""
    def sub(m):
        t = m.group(1).lower()
        if t.lstrip("-") in ("nan", "infinity", "inf"):
            return "n" + t.replace("infinity", "inf")
        return "n" + num(t)
    return re.sub(r"#([^;]*);", sub, line)


def show(dump):
    """canonical dump -> readable text for messages"""
    def sub(m):
        try:
            return repr(bytes.fromhex(m.group(1)).decode("utf-8", "replace"))
        except ValueError:
            return m.group(0)
    return re.sub(r"(?<![a-z])s((?:[0-9a-f]{2})*)(?![0-9a-z])", sub, dump)


# --------------------------------------------------------------- utilities

def identifier(name):
    """vxlisp name -> generated identifier (the documented name mangling)"""
    out = name
    for a, b in (("<-", "_from_"), ("-", "_"), ("/", "_")):
        out = out.replace(a, b)
    return out


class Session:
    """One probe project, generated and compiled once, then called many times."""

    def __init__(self, name, langs=LANGS, sanitize=False, extra_cpp=()):
        self.dir = vf.fresh_dir(os.path.join(vf.WORK, "rt", name))
        self.langs = langs
        self.sanitize = sanitize
        self.packages = {}        # name -> text
        self.funcs = {}           # (pkg, func) -> [cpp arg types]
        self.extra_cpp = list(extra_cpp)
        self.compiler = os.path.join(self.dir, "vxlisp")
        self.cpplibs = ["vx/core", "vx/type", "vx/collection"]

    # -- program text
    def package(self, name, text, funcs):
        """funcs: {function name: [argument type names]}"""
        self.packages[name] = text
        for fn, args in funcs.items():
            self.funcs[(name, fn)] = list(args)

    def generate(self, lang, must=True):
        p = vf.run([self.compiler, "src" + lang, "--path", os.path.join(self.dir, "prj")],
                   cwd=self.dir, timeout=300)
        out = p.stdout.decode(errors="replace")
        return out

    def write(self):
        prj = os.path.join(self.dir, "prj")
        os.makedirs(prj, exist_ok=True)
        with open(os.path.join(prj, "project.vxlisp"), "w") as f:
            f.write(PROJECT % {"dist": vf.DIST, "cmds": ""})
        for name, text in self.packages.items():
            path = os.path.join(prj, name + ".vxlisp")
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "w", encoding="utf-8", newline="") as f:
                f.write(text)

    def build(self):
        """generate and compile every language; returns {lang: error or None}"""
        vf.build_compiler(self.compiler)
        self.write()
        self.genlog = {}
        for lang in self.langs:
            self.genlog[lang] = self.generate(lang)
            err = [l for l in self.genlog[lang].split("\n") if "error" in l.lower()]
            marker = {"js": "js/src/vx/core.js",
                      "java": "java/src/main/java/com/vxlisp/vx/Core.java",
                      "cpp": "cpp/src/main/vx/core.cpp"}[lang]
            if not os.path.exists(os.path.join(self.dir, "out", marker)):
                raise BuildFailure(lang, "generate", self.genlog[lang])
        jobs = []
        if "java" in self.langs:
            jobs.append(self._build_java)
        if "js" in self.langs:
            jobs.append(self._build_js)
        if "cpp" in self.langs:
            jobs.append(self._build_cpp)
        with concurrent.futures.ThreadPoolExecutor(3) as ex:
            for f in [ex.submit(j) for j in jobs]:
                f.result()

    # -- JavaScript
    def _build_js(self):
        d = os.path.join(self.dir, "out", "js")
        with open(os.path.join(d, "package.json"), "w") as f:
            f.write('{"type":"module"}\n')
        src = open(os.path.join(vf.VERIF, "lib", "driver.mjs")).read()
        with open(os.path.join(d, "driver.mjs"), "w") as f:
            f.write(src)

    # -- Java
    def _build_java(self):
        d = os.path.join(self.dir, "out", "java")
        src = open(os.path.join(vf.VERIF, "lib", "Driver.java")).read()
        with open(os.path.join(d, "Driver.java"), "w") as f:
            f.write(src)
        files = ["Driver.java"]
        for pkg in self.packages:
            files.append("src/main/java/com/vxlisp/" + java_file(pkg))
        p = vf.run(["javac", "-nowarn", "-J-Xss64m", "-encoding", "UTF-8", "-proc:none",
                    "-implicit:class", "-sourcepath", "src/main/java", "-d", "classes"] + files,
                   cwd=d, timeout=600)
        if p.returncode != 0:
            raise BuildFailure("java", "compile", p.stdout.decode(errors="replace"))

    # -- C++
    def _build_cpp(self):
        d = os.path.join(self.dir, "out", "cpp")
        pkgs = list(self.packages)
        units = list(self.cpplibs) + pkgs
        flags = ["-std=c++20", "-O0", "-w", "-I.", "-Isrc/main"]
        if self.sanitize:
            flags += ["-fsanitize=address", "-fno-omit-frame-pointer", "-g1"]
        self._cpp_driver(d, pkgs)
        jobs = []
        for u in units:
            jobs.append((u, ["ccache", "g++"] + flags + ["-c", "src/main/%s.cpp" % u, "-o",
                                                          "obj/%s.o" % u.replace("/", "__")]))
        names = sorted(n for n in os.listdir(d) if n.startswith("driver") and n.endswith(".cpp"))
        for n in names:
            jobs.append((n, ["ccache", "g++"] + flags + ["-c", n, "-o", "obj/%s.o" % n]))
        os.makedirs(os.path.join(d, "obj"), exist_ok=True)

        def one(job):
            p = vf.run(job[1], cwd=d, timeout=800)
            if p.returncode != 0:
                raise BuildFailure("cpp", "compile " + job[0], p.stdout.decode(errors="replace"))
        with concurrent.futures.ThreadPoolExecutor(vf.NCPU) as ex:
            for f in [ex.submit(one, j) for j in jobs]:
                f.result()
        objs = [j[1][-1] for j in jobs]
        link = ["g++"] + (["-fsanitize=address"] if self.sanitize else []) + objs + ["-pthread", "-o", "driver"]
        p = vf.run(link, cwd=d, timeout=300)
        if p.returncode != 0:
            raise BuildFailure("cpp", "link", p.stdout.decode(errors="replace"))

    def _cpp_driver(self, d, pkgs):
        incl = "".join('#include "src/main/%s.hpp"\n' % u for u in self.cpplibs + pkgs)
        common = open(os.path.join(vf.VERIF, "lib", "driver.hpp")).read()
        with open(os.path.join(d, "driver.hpp"), "w") as f:
            f.write(common)
        # one dispatch unit per package so they compile in parallel
        decl = []
        for n, pkg in enumerate(pkgs):
            ns = identifier(pkg)
            lines = ['#include "driver.hpp"\n',
                     '#include "src/main/vx/core.hpp"\n',
                     '#include "src/main/%s.hpp"\n' % pkg,
                     "static inline vx_core::Type_any vf_sync(vx_core::Type_any v) { return v; }\n"
                     "static inline vx_core::Type_any vf_sync(vx_core::vx_Type_async v) "
                     "{ return vx_core::vx_sync_from_async(vx_core::t_any, v); }\n"]
            names = sorted(fn for (p, fn) in self.funcs if p == pkg)
            for k, fn in enumerate(names):
                args = self.funcs[(pkg, fn)]
                cast = ", ".join("vx_core::vx_any_from_any(%s, a[%d])" % (cpp_type(t, pkg), i)
                                 for i, t in enumerate(args))
                lines.append("static vx_core::Type_any c%d(std::vector<vx_core::Type_any>& a) { return vf_sync(%s::f_%s(%s)); }\n"
                             % (k, ns, identifier(fn), cast))
            lines.append("void reg_%d(std::map<std::string, vf_fn>& m) {\n" % n)
            for k, fn in enumerate(names):
                lines.append('  m["%s#%s"] = c%d;\n' % (pkg, fn, k))
            lines.append("}\n")
            with open(os.path.join(d, "driver_%d.cpp" % n), "w") as f:
                f.write("".join(lines))
            decl.append("void reg_%d(std::map<std::string, vf_fn>& m);\n" % n)
        types = sorted(self.types())
        lines = ['#include "driver.hpp"\n', incl, "".join(decl)]
        lines.append("void vf_register(std::map<std::string, vf_fn>& m) {\n")
        for n in range(len(pkgs)):
            lines.append("  reg_%d(m);\n" % n)
        lines.append("}\nvoid vf_types(std::map<std::string, vx_core::Type_any>& t, std::map<std::string, vx_core::Type_any>& e) {\n")
        for t in types:
            lines.append('  t["%s"] = %s; e["%s"] = %s;\n' % (t, cpp_type(t), t, cpp_type(t, prefix="e_")))
        lines.append("}\n")
        lines.append(open(os.path.join(vf.VERIF, "lib", "driver.cpp")).read())
        with open(os.path.join(d, "driver_main.cpp"), "w") as f:
            f.write("".join(lines))

    def types(self):
        out = set(self.argtypes)
        return out

    argtypes = frozenset()

    # -- running
    def call(self, cases, check_mem=False):
        """cases: [(pkg, func, [args])] -> {lang: [canonical dump]}"""
        lines = ["%s#%s %s" % (p, f, " ".join(encode(a) for a in args)) for p, f, args in cases]
        path = os.path.join(self.dir, "cases.txt")
        with open(path, "w") as f:
            f.write("\n".join(lines) + "\n")
        with concurrent.futures.ThreadPoolExecutor(3) as ex:
            futs = {lang: ex.submit(getattr(self, "_run_" + lang), path, len(lines))
                    for lang in self.langs}
            return {lang: f.result() for lang, f in futs.items()}

    def _run_js(self, path, n):
        return self._drive("js", ["node", "--stack-size=4000", "driver.mjs", path], n)

    def _run_java(self, path, n):
        return self._drive("java", ["java", "-Xss64m", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1",
                                    "-cp", "classes", "Driver", path], n)

    def _run_cpp(self, path, n):
        return self._drive("cpp", ["./driver", path], n)

    def _drive(self, lang, cmd, n):
        """Run one driver over all calls.  A crash or a call that makes no
        progress loses only that call: the driver restarts after it."""
        d = os.path.join(self.dir, "out", lang)
        env = vf.go_env()
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=0"
        res = [None] * n
        start = 0
        bad = 0
        while start < n:
            got, tail, how = stream(cmd + [str(start)], d, env)
            for k, v in got.items():
                res[k] = canon(v)
            missing = [i for i in range(start, n) if res[i] is None]
            if not missing:
                break
            k = missing[0]
            if k == start and not got and how != "HANG" and lang != "cpp":
                raise BuildFailure(lang, "run", tail)
            m = re.search(r"ERROR: AddressSanitizer: (\S+)", tail)
            res[k] = "HANG" if how == "HANG" else "CRASH(%s)" % (m.group(1) if m else how)
            self.crash_text[(lang, k)] = tail
            start = k + 1
            bad += 1
            if bad > self.max_bad:
                for i in range(start, n):
                    if res[i] is None:
                        res[i] = "NOTRUN"
                break
        return res

    max_bad = 300
    crash_text = {}


STALL = 40      # seconds without one finished call


def stream(cmd, cwd, env):
    """-> ({index: dump}, tail of other output, exit status or "HANG")"""
    import threading
    import time
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT)
    got = {}
    tail = []
    last = [time.time()]

    def reader():
        for raw in p.stdout:
            line = raw.decode("utf-8", "replace").rstrip("\n")
            if line.startswith("@"):
                k, _, rest = line[1:].partition(" ")
                got[int(k)] = rest
                last[0] = time.time()
            elif len(tail) < 400:
                tail.append(line)
    t = threading.Thread(target=reader, daemon=True)
    t.start()
    how = None
    while True:
        t.join(0.5)
        if not t.is_alive():
            break
        if time.time() - last[0] > STALL:
            p.kill()
            how = "HANG"
            t.join()
            break
    rc = p.wait()
    return got, "\n".join(tail)[-6000:], how or rc


class BuildFailure(Exception):
    def __init__(self, lang, stage, out):
        Exception.__init__(self, "%s %s failed" % (lang, stage))
        self.lang = lang
        self.stage = stage
        self.out = out


COLLECTION_TYPES = set()


def split_type(t, pkg=None):
    if "/" in t:
        p, _, n = t.rpartition("/")
        return p, n
    return "vx/core", t


def cpp_type(t, pkg=None, prefix="t_"):
    p, n = split_type(t)
    return "%s::%s%s" % (identifier(p), prefix, identifier(n))


def java_file(pkg):
    parts = pkg.split("/")
    return "/".join(parts[:-1] + [parts[-1][0].upper() + parts[-1][1:]]) + ".java"
