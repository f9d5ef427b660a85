"""T01: the generated test suites.

Enumerated: sequences of tests (every form of test, passing and failing) of types,
constants, functions and overloaded functions; every combination of tested,
untested and absent declarations for the coverage numbers; and the filter of a
test command.  The suites generated for three targets are run and must hold
every test of the sources once, with the right verdict and the right numbers."""
import itertools
import os
import re
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import cc
import rt
import vf

deep = not vf.quick()
CMDS = """  (cmd testjs :code :test :lang :js :path ../out/js/test%(f)s :context probe/ctx/context-mine)
  (cmd testjava :code :test :lang :java :path ../out/java/src/test/java%(f)s :context probe/ctx/context-mine)
  (cmd testcpp :code :test :lang :cpp :path ../out/cpp/src/test%(f)s :context probe/ctx/context-mine)
"""
# form -> (text with the call's value 3 for @, passes)
FORMS = {
    "eq": [("(test 3 @)", True), ("(test 4 @)", False)],
    "true": [("(test-true (= 3 @))", True), ("(test-true (= 2 @))", False)],
    "false": [("(test-false (= 2 @))", True), ("(test-false (= 3 @))", False)],
    "ne": [("(test-ne 4 @)", True), ("(test-ne 3 @)", False)],
    "string": [("(test-string 3 @)", True), ("(test-string 4 @)", False)],
}
ALL = [t for f in FORMS.values() for t in f]
# further shapes of tests, over functions of the preamble
MORE = [
    ('(test "a\\"b" (string "a\\"" "b"))', True), ('(test "a b" (string "a  b"))', False),
    ('(test "two\\nlines" (string "two" "\\n" "lines"))', True), ('(test "" (string))', True),
    ("(test `a \"quoted\" text` (string `a \"quoted\" text`))", True), ('(test "$x %d {y}" (string "$x %d {y}"))', True),
    ("(test (intlist 1 2) (intlist 1 2))", True), ("(test (intlist 1 2) (intlist 2 1))", False),
    ("(test (intlist) (intlist 1))", False), ("(test true (! false))", True), ("(test false true)", False),
    ("(test (item :size 3) (item :size 3))", True), ("(test (item :size 3) (item :size 4))", False),
    ("(test 6 (let [w1 : int := 2 w2 : int := 3] (* w1 w2)))", True),
    ("(test (intlist 2 3) (list<-list : intlist (intlist 1 2) (fn : int [w3 : int] (+ w3 1))))", True),
    ("(test 5 (if : int (then false 4) (else 5)))", True), ("(test 5 (:size (item :size 5)))", True),
    ("(test\n   7\n   (+ 3\n      4))", True), ("(test 8 // a remark\n (+ 3 5))", True), ("(test -1 (- 1 2))", True),
    ('(test "é∀" (string "é" "∀"))', True), ('(test "é" "e")', False), ('(test 1 // é\n 1)', True),
]
NAMES = ["one%d", "has-two%d", "is-three%d", "four%d<-int", "Five%d"]


class Item:
    """one declaration: kind, name, index of the overload, source and tests"""

    def __init__(self, kind, name, index, text, tests, doc=False, space=False, time=False):
        self.kind, self.name, self.index, self.text, self.tests = kind, name, index, text, tests
        self.doc, self.space, self.time = doc, space, time


def decl(kind, name, tests, call=None, index=0, doc=False, space=False, time=False):
    """tests: [(text with @, verdict)]"""
    call = call or {"type": "(:size (%s :size 3))" % name, "const": name, "func": "(%s 2)" % name}[kind]
    if kind == "func" and index:
        call = '(%s "x")' % name
    tests = [(t.replace("@", call), v) for t, v in tests]
    body = {"type": "(type %s : struct :properties [size : int]", "const": "(const %s : int 3",
            "func": "(func %s : int [n : int] (+ n 1)" if not index else "(func %s : int [n : string] 3"}[kind] % name
    if doc:
        body += '\n :doc "what %s is"' % name
    if space:
        body += "\n :bigospace :n"
    if time:
        body += "\n :bigotime :logn"
    if tests:
        body += "\n :test " + "\n       ".join(t for t, _ in tests)
    return Item(kind, name, index, body + ")\n", tests, doc, space, time)


CTX = cc.HEAD % "probe/ctx" + "(func context-mine : context [args : anylist :...] (context))\n"
PRE = "(type item : struct :properties [size : int])\n"


def packages():
    """-> {package: [Item]}"""
    out = {}
    count = itertools.count(1)

    def names():
        for k in itertools.count(1):
            yield NAMES[k % len(NAMES)] % k
    # sequences of tests
    seqs = [()] + [(t,) for t in ALL + MORE] + list(itertools.product(ALL, repeat=2))
    seqs += list(itertools.product(FORMS["eq"], repeat=3))
    if deep:
        seqs += list(itertools.product([t for f in ("eq", "true", "ne") for t in FORMS[f]], repeat=3))
    long = [tuple((ALL + MORE)[(7 * k + i) % len(ALL + MORE)] for i in range(k)) for k in range(4, 33 if deep else 14)]
    seqs += long
    items = []
    name = names()
    for k, seq in enumerate(seqs):
        items.append(decl("func", next(name), seq, doc=k % 3 == 0, space=k % 4 == 0, time=k % 2 == 0))
    for kind in ("type", "const"):
        for k, seq in enumerate([s for s in seqs if len(s) < 2] + list(itertools.product(FORMS["eq"] + FORMS["true"], repeat=2)) + long):
            items.append(decl(kind, next(name), seq, doc=k % 2 == 0))
    some = [(), (ALL[0],), (ALL[1],), (ALL[0], ALL[1])]
    for a, b in itertools.product(some, repeat=2):
        n = next(name)
        items.append(decl("func", n, a, doc=bool(a)))
        items.append(decl("func", n, b, index=1, time=bool(b)))
    size = 60
    k = 0
    while k < len(items):
        end = k + size
        while end < len(items) and items[end].index:      # overloads stay together
            end += 1
        out["probe/s%d" % next(count)] = items[k:end]
        k = end
    # tested, untested or absent declarations of each kind
    for t, c, f in itertools.product((None, 0, 1), repeat=3):
        for o in (None, "00", "01", "10", "11") if deep or (t, c) == (None, 1) else (None, "11") if f else (None,):
            part = []
            if t is not None:
                part.append(decl("type", "tt", [ALL[0]] * t, doc=c == 1))
                part.append(decl("type", "tu", [], doc=True))
            if c is not None:
                part.append(decl("const", "cc", [ALL[0]] * c, doc=t == 1))
            if f is not None:
                part.append(decl("func", "ff", [ALL[1]] * f, space=t == 1, time=c == 1))
                part.append(decl("func", "fg", [], doc=f == 1, space=True, time=True))
            if o:
                part.append(decl("func", "ov", [ALL[0]] * int(o[0])))
                part.append(decl("func", "ov", [ALL[0]] * int(o[1]), index=1))
            out["probe/c%d" % next(count)] = part
    return out


def source(pkg, items, pre):
    return cc.HEAD % pkg + (PRE if pre else "") + "\n".join(i.text for i in items)


def squeeze(text):
    return " ".join(text.split())


def strip_comment(text):
    return re.sub(r"//[^\n]*", "", text)


def pct(a, b):
    return (100 if b == 0 else a * 100 // b, a, b)


def model(pkg, items, pre, only=None):
    """what the suite of a package holds"""
    cases = []
    for i in items:
        if i.tests and only in (None, pkg + "/" + i.name):
            cases.append((i.name, tuple((squeeze(strip_comment(t)).replace("\\n", " "), v) for t, v in i.tests)))
    nums = {}
    for kind in ("type", "const", "func"):
        of = [i for i in items if i.kind == kind]
        nums[kind] = (sum(1 for i in of if i.tests), len(of) + (1 if kind == "type" and pre else 0))
    total = tuple(map(sum, zip(*nums.values())))
    res = {k: pct(*v) for k, v in nums.items()}
    res["total"] = pct(*total)
    res["doc"] = pct(sum(i.doc for i in items), total[1])
    funcs = [i for i in items if i.kind == "func"]
    res["bigospace"] = pct(sum(i.space for i in funcs), len(funcs))
    res["bigotime"] = pct(sum(i.time for i in funcs), len(funcs))
    detail = {(i.kind, i.name + ("_%d" % i.index if i.index else "")): len(i.tests) for i in items}
    if pre:
        detail[("type", "item")] = 0
    return sorted(cases), res, detail


JS = """import { pathToFileURL } from "node:url"
const load = async (p) => (await import(pathToFileURL(process.cwd() + "/" + p).href)).default
const vx_core = await load("src/vx/core.js")
const vx_test = await load("src/vx/test.js")
const get = (s, k) => { const v = s["vx_value"]; return v === undefined ? undefined : v[k] }
const hex = (s) => Buffer.from(String(s === undefined ? "" : s), "utf8").toString("hex")
const context = vx_test.f_context_test([])
async function dump(name, pkg) {
  console.log("\\n@P " + name)
  pkg = await vx_test.f_resolve_testpackage(pkg)
  console.log("@N " + hex(get(pkg, "testpkg")))
  for (const tc of get(pkg, "caselist") || []) {
    console.log("@C " + hex(get(tc, "casename")))
    for (const td of get(tc, "describelist")) {
      const r = get(td, "testresult")
      console.log("@D " + (get(r, "passfail") === true ? 1 : 0) + " " + hex(get(td, "describename")))
    }
  }
  const s = get(pkg, "coveragesummary")
  for (const k of ["const", "doc", "func", "bigospace", "bigotime", "total", "type"]) {
    const n = get(s, k + "nums")
    const v = (q) => n === undefined || get(n, q) === undefined ? 0 : get(n, q)
    console.log("@S " + k + " " + v("pct") + " " + v("tests") + " " + v("total"))
  }
  const d = get(pkg, "coveragedetail")
  for (const k of ["type", "const", "func"]) {
    const m = get(d, k + "map")
    for (const [a, b] of Object.entries((m && m["vx_value"]) || {})) console.log("@M " + k + " " + hex(a) + " " + b)
  }
}
if (process.argv[2] == "suite") {
  const app = await load("test/app_test.js")
  for (const p of app.f_testpackagelist_from_all_test(context)) if (process.argv[3] != "own" || get(p, "testpkg").startsWith("probe/")) await dump("suite", p)
} else {
  for (const p of process.argv.slice(3)) await dump(p, (await load("test/" + p + "_test.js")).test_package(context))
}
process.exit(0)
"""
JAVA = """import com.vxlisp.vx.Core;
import com.vxlisp.vx.Test;
import java.nio.charset.StandardCharsets;
import java.util.*;
public final class Suite {
  static String hex(String s) {
    StringBuilder b = new StringBuilder();
    for (byte x : s.getBytes(StandardCharsets.UTF_8)) b.append(String.format("%%02x", x));
    return b.toString();
  }
  static void nums(String k, Test.Type_testcoveragenums n) {
    System.out.println("@S " + k + " " + n.pct().vx_int() + " " + n.tests().vx_int() + " " + n.total().vx_int());
  }
  static void map(String k, Core.Type_intmap m) {
    for (Map.Entry<String, Core.Type_int> e : m.vx_mapint().entrySet())
      System.out.println("@M " + k + " " + hex(e.getKey()) + " " + e.getValue().vx_int());
  }
  static void dump(String name, Test.Type_testpackage pkg) throws Exception {
    System.out.println("\\n@P " + name);
    pkg = Core.vx_sync_from_async(Test.t_testpackage, Test.f_resolve_testpackage(pkg));
    System.out.println("@N " + hex(pkg.testpkg().vx_string()));
    for (Test.Type_testcase tc : pkg.caselist().vx_listtestcase()) {
      System.out.println("@C " + hex(tc.casename().vx_string()));
      for (Test.Type_testdescribe td : tc.describelist().vx_listtestdescribe())
        System.out.println("@D " + (td.testresult().passfail().vx_boolean() ? 1 : 0) + " " + hex(td.describename().vx_string()));
    }
    Test.Type_testcoveragesummary s = pkg.coveragesummary();
    nums("const", s.constnums()); nums("doc", s.docnums()); nums("func", s.funcnums());
    nums("bigospace", s.bigospacenums()); nums("bigotime", s.bigotimenums());
    nums("total", s.totalnums()); nums("type", s.typenums());
    map("type", pkg.coveragedetail().typemap()); map("const", pkg.coveragedetail().constmap());
    map("func", pkg.coveragedetail().funcmap());
  }
  public static void main(String[] args) throws Exception {
    Core.Type_context context = Test.f_context_test(Core.e_anylist);
%s
    System.exit(0);
  }
}
"""
JUNIT = """    for (java.lang.reflect.Method m : AppTest.class.getDeclaredMethods()) {
      org.junit.jupiter.api.DisplayName n = m.getAnnotation(org.junit.jupiter.api.DisplayName.class);
      if (n == null || m.getAnnotation(org.junit.jupiter.api.Test.class) == null || !n.value().startsWith("probe/")) continue;
      m.setAccessible(true);
      String r = "1";
      try { m.invoke(new AppTest()); } catch (java.lang.reflect.InvocationTargetException e) { r = e.getCause() instanceof AssertionError ? "0" : "error"; }
      System.out.println("\\n@J " + r + " " + hex(n.value()));
    }
"""
CPP = """#include <iostream>
#include <cstdio>
%s
static std::string hex(const std::string& s) {
  std::string o; char b[4];
  for (unsigned char c : s) { snprintf(b, 4, "%%02x", c); o += b; }
  return o;
}
static void nums(const char* k, vx_test::Type_testcoveragenums n) {
  std::cout << "@S " << k << " " << n->pct()->vx_int() << " " << n->tests()->vx_int() << " " << n->total()->vx_int() << std::endl;
}
static void map(const char* k, vx_core::Type_intmap m) {
  for (auto const& e : m->vx_mapint()) std::cout << "@M " << k << " " << hex(e.first) << " " << e.second->vx_int() << std::endl;
}
static void dump(const char* name, vx_test::Type_testpackage raw) {
  std::cout << "\\n@P " << name << std::endl;
  vx_test::Type_testpackage pkg = vx_core::vx_sync_from_async(vx_test::t_testpackage, vx_test::f_resolve_testpackage(raw));
  std::cout << "@N " << hex(pkg->testpkg()->vx_string()) << std::endl;
  for (auto tc : pkg->caselist()->vx_listtestcase()) {
    std::cout << "@C " << hex(tc->casename()->vx_string()) << std::endl;
    for (auto td : tc->describelist()->vx_listtestdescribe())
      std::cout << "@D " << (td->testresult()->passfail()->vx_boolean() ? 1 : 0) << " " << hex(td->describename()->vx_string()) << std::endl;
  }
  vx_test::Type_testcoveragesummary s = pkg->coveragesummary();
  nums("const", s->constnums()); nums("doc", s->docnums()); nums("func", s->funcnums());
  nums("bigospace", s->bigospacenums()); nums("bigotime", s->bigotimenums());
  nums("total", s->totalnums()); nums("type", s->typenums());
  map("type", pkg->coveragedetail()->typemap()); map("const", pkg->coveragedetail()->constmap());
  map("func", pkg->coveragedetail()->funcmap());
}
int main() {
  vx_core::Type_context context = vx_test::f_context_test(vx_core::e_anylist);
  vx_core::vx_reserve_context(context);
%s
  std::cout.flush();
  _Exit(0);
}
"""


def parse(out):
    """-> {package: [(cases, nums, detail)]}"""
    res = {}
    cur = None
    for line in out.split("\n"):
        w = line.split(" ")
        if w[0] == "@P":
            cur = {"cases": [], "nums": {}, "detail": {}}
        elif w[0] == "@N":
            res.setdefault(bytes.fromhex(w[1]).decode(), []).append(cur)
        elif w[0] == "@J":
            res.setdefault(bytes.fromhex(w[2]).decode(), []).append(w[1])
        elif w[0] == "@C":
            cur["cases"].append((bytes.fromhex(w[1]).decode(), []))
        elif w[0] == "@D":
            cur["cases"][-1][1].append((squeeze(strip_comment(bytes.fromhex(w[2]).decode())) if len(w) > 2 else "", w[1] == "1"))
        elif w[0] == "@S":
            cur["nums"][w[1]] = tuple(int(x) for x in w[2:5])
        elif w[0] == "@M":
            cur["detail"][(w[1], bytes.fromhex(w[2]).decode().lstrip(":"))] = int(w[3])
    return res


class Suite:
    """one project with its generated suites"""

    def __init__(self, C, packages, texts, langs, only=None, wholesuite=False):
        self.C, self.packages, self.langs = C, packages, langs
        self.dir = C.workdir()
        self.wholesuite = wholesuite
        prj = rt.PROJECT % {"dist": vf.DIST, "cmds": CMDS % {"f": " :filter " + only if only else ""}}
        C.write(self.dir, dict(texts, **{"probe/ctx": CTX}), project=prj)
        self.log = C.run(self.dir, [c + l for l in langs for c in ("src", "test")])[1]

    def path(self, *p):
        return os.path.join(self.dir, "out", *p)

    def shell(self, cmd, cwd, timeout=600):
        p = vf.run(cmd, cwd=cwd, timeout=timeout)
        return p.returncode, p.stdout.decode("utf-8", "replace")

    def run(self, lang):
        """-> (stage that failed or None, output)"""
        return getattr(self, "run_" + lang)()

    def run_js(self):
        d = self.path("js")
        if not os.path.isdir(os.path.join(d, "test")):
            return "generate", self.log
        with open(os.path.join(d, "package.json"), "w") as f:
            f.write('{"type":"module"}\n')
        with open(os.path.join(d, "suite.mjs"), "w") as f:
            f.write(JS)
        rc, out = self.shell(["node", "suite.mjs"] + (["suite", "own"] if self.wholesuite else ["packages"] + list(self.packages)), d)
        return (None if rc == 0 else "run"), out

    def run_java(self):
        d = self.path("java")
        if not os.path.isdir(os.path.join(d, "src/test")):
            return "generate", self.log
        if self.wholesuite:
            calls = JUNIT
        else:
            calls = "".join("    dump(\"%s\", com.vxlisp.%sTest.test_package(context));\n" % (
                p, rt.java_file(p)[:-5].replace("/", ".")) for p in self.packages)
        with open(os.path.join(d, "Suite.java"), "w") as f:
            f.write(JAVA % calls)
        jars = ":".join("/usr/share/java/%s.jar" % j for j in ("junit-jupiter-api", "opentest4j", "apiguardian-api",
                                                               "junit-platform-commons"))
        rc, out = self.shell(["javac", "-nowarn", "-encoding", "UTF-8", "-proc:none", "-implicit:class", "-cp", jars, "-sourcepath",
                              "src/main/java:src/test/java", "-d", "classes", "Suite.java"], d)
        if rc:
            return "compile", out
        rc, out = self.shell(["java", "-XX:TieredStopAtLevel=1", "-cp", "classes:" + jars, "Suite"], d)
        return (None if rc == 0 else "run"), out

    def run_cpp(self):
        d = self.path("cpp")
        if not os.path.isdir(os.path.join(d, "src/test")):
            return "generate", self.log
        if self.wholesuite:
            incl = "#define main app_test_main\n#include \"src/test/app_test.cpp\"\n#undef main\n"
            calls = "  for (auto p : testsuite(context)->vx_listtestpackage()) dump(\"suite\", p);\n"
        else:
            incl = "#include \"src/main/vx/core.hpp\"\n#include \"src/main/vx/test.hpp\"\n" + "".join(
                "#include \"src/test/%s_test.hpp\"\n" % p for p in self.packages)
            calls = "".join("  dump(\"%s\", %s_test::test_package(context));\n" % (p, rt.identifier(p)) for p in self.packages)
        with open(os.path.join(d, "suite.cpp"), "w") as f:
            f.write(CPP % (incl, calls))
        if self.wholesuite:
            units = [os.path.relpath(os.path.join(r, n), d)[:-4] for r, _, ns in os.walk(os.path.join(d, "src")) for n in ns
                     if n.endswith(".cpp") and n not in ("app.cpp", "app_test.cpp")]
        else:
            units = []
            todo = ["src/test/%s_test" % p for p in self.packages] + ["src/main/vx/core", "src/main/vx/test"]
            while todo:                                  # every unit whose header is included
                u = todo.pop()
                if u in units or not os.path.exists(os.path.join(d, u + ".cpp")):
                    continue
                units.append(u)
                for ext in (".cpp", ".hpp"):
                    with open(os.path.join(d, u + ext), encoding="utf-8") as f:
                        todo += [os.path.normpath(os.path.join(os.path.dirname(u), i)) for i in re.findall(r'#include "([^"]+)\.hpp"', f.read())]
        units.append("suite")
        os.makedirs(os.path.join(d, "obj"), exist_ok=True)

        def one(u):
            return self.shell(["ccache", "g++", "-std=c++20", "-O0", "-w", "-I.", "-c", u + ".cpp", "-o",
                               "obj/%s.o" % u.replace("/", "__")], d, 800)
        for rc, out in cc.parallel(one, units):
            if rc:
                return "compile", out
        rc, out = self.shell(["g++"] + ["obj/%s.o" % u.replace("/", "__") for u in units] + ["-pthread", "-o", "suite"], d)
        if rc:
            return "link", out
        rc, out = self.shell(["./suite"], d)
        return (None if rc == 0 else "run"), out


def main():
    rep = vf.Report("T01", "model_checking")
    C = cc.CC("T01")
    pk = packages()
    texts = {p: source(p, items, p.startswith("probe/s")) for p, items in pk.items()}
    counts = {"tests": 0, "compared": 0}

    def judge(lang, label, got, want, only=None):
        """compare the suites of one project; got: {package: [dump]}"""
        for p, items in want.items():
            pre = p.startswith("probe/s")
            cases, nums, detail = model(p, items, pre, only)
            dumps = got.get(p, [])
            if only and not cases and (not dumps or dumps == ["1"]):
                continue
            if len(dumps) != 1:
                rep.violation("%s %s %s package" % (lang, label, p), "%s: %s: the package %s is %d times in the suite" % (
                    lang, label, p, len(dumps)), {"language": lang, "package": texts.get(p), "got": dumps})
                continue
            d = dumps[0]
            if isinstance(d, str):
                counts["compared"] += 1
                good = all(v for _, ts in cases for _, v in ts)
                if d != ("1" if good else "0"):
                    rep.violation("%s %s %s verdict" % (lang, label, p), "%s: %s: the suite %s the package %s with %s" % (
                        lang, label, {"1": "passes", "0": "fails"}.get(d, "stops in"), p, "passing tests only" if good else "a failing test"),
                        {"language": lang, "package": texts.get(p)})
                continue
            names = {i.name for i in items}
            mine = sorted((n if n in names else re.sub(r"_\d+$", "", n), tuple(ts)) for n, ts in d["cases"])
            counts["compared"] += sum(len(ts) for _, ts in mine)
            if mine != cases:
                gone = [c for c in cases if c not in mine]
                more = [c for c in mine if c not in cases]
                rep.violation("%s %s %s tests" % (lang, label, p),
                              "%s: %s: tests of %s: expected but not there: %s; there but not expected: %s" % (
                                  lang, label, p, gone[:3], more[:3]),
                              {"language": lang, "package": texts.get(p), "missing": gone, "unexpected": more})
            if only:
                continue
            more = sum(1 for i in items if i.kind == "func" and i.index)
            for k in nums:
                counts["compared"] += 1
                if d["nums"].get(k) != nums[k]:
                    if lang == "java" and k in ("func", "total") and more and d["nums"].get(k) == pct(
                            nums[k][1], nums[k][2] - more):
                        rep.violation("java overloads in the function total", "Java: the %s coverage of %s counts overloads of a function once in its total: "
                                      "expected %d%% = %d of %d, got %s" % ((k, p) + nums[k] + (d["nums"].get(k),)),
                                      {"language": lang, "package": texts.get(p)})
                        continue
                    rep.violation("%s %s %s coverage %s" % (lang, label, p, k), "%s: %s: %s coverage of %s: expected %d%% = %d of %d, got %s" % (
                        (lang, label, k, p) + nums[k] + (d["nums"].get(k),)), {"language": lang, "package": texts.get(p)})
            if d["detail"] != detail:
                diff = {k: (detail.get(k), d["detail"].get(k)) for k in set(detail) | set(d["detail"]) if detail.get(k) != d["detail"].get(k)}
                rep.violation("%s %s %s detail" % (lang, label, p), "%s: %s: number of tests by declaration of %s differs (expected, got): %s" % (
                    lang, label, p, dict(list(diff.items())[:4])), {"language": lang, "package": texts.get(p)})

    def attempt(label, suite, lang, want, only=None):
        stage, out = suite.run(lang)
        if stage:
            again = suite.run(lang)
            if again[0] is None:
                raise vf.CheckError("not reproducible: %s %s" % (lang, stage))
            if "error" not in out.lower() and stage not in ("generate", "run"):
                raise vf.CheckError("%s %s: %s" % (lang, stage, out[-2000:]))
            lines = [l for l in out.split("\n") if "rror" in l] or [out[-800:]]
            rep.violation("%s %s %s" % (lang, label, stage), "%s: %s: the generated suite does not %s: %s" % (
                lang, label, stage, " / ".join(lines[:3])), {"language": lang, "output": out[-6000:], "packages": texts})
            rep.exhaustive = False
            return
        judge(lang, label, parse(out), want, only)

    langs = rt.LANGS
    full = Suite(C, pk, texts, langs)
    for lang in langs:
        attempt("packages", full, lang, pk)
    # the whole suite of a project holds every package
    full.wholesuite = True
    for lang in ("js", "java") + (("cpp",) if deep else ()):
        attempt("suite", full, lang, pk)
    # the filter of a command leaves the tests of one name
    last = [p for p in pk if p.startswith("probe/s")][-1]
    extra = {last: pk[last], "probe/other": [decl("func", n, [ALL[0]]) for n in ("ov", "ff", "x")],
             "probe/oth": [decl("func", "er", [ALL[0]]), decl("func", "x", [ALL[0], ALL[1]]), decl("type", "y", [ALL[0]]), decl("const", "z", [ALL[0]])]}
    etexts = {p: source(p, items, p == last) for p, items in extra.items()}
    targets = [p + "/" + n for p, items in extra.items() for n in dict.fromkeys(i.name for i in items)
               if n not in {i.name for i in items if i.index}]
    targets = targets[-7:] + targets[:-7][::1 if deep else 12]
    texts.update(etexts)

    def filtered(only):
        suite = Suite(C, extra, etexts, ("js", "java"), only, True)
        res = [(lang,) + suite.run(lang) for lang in ("js", "java")]
        C.drop(suite.dir)
        return only, res
    for only, res in cc.parallel(filtered, targets, 4):
        for lang, stage, out in res:
            if stage:
                rep.violation("%s filter %s %s" % (lang, only, stage), "%s: filter %s: the generated suite does not %s: %s" % (
                    lang, only, stage, out[-800:]), {"language": lang, "filter": only, "output": out[-6000:], "packages": etexts})
            else:
                judge(lang, "filter " + only, parse(out), extra, only)
    for only in targets[2:5] if not deep else targets[:7]:
        suite = Suite(C, extra, etexts, ("cpp",), only)
        attempt("filter " + only, suite, "cpp", extra, only)
        C.drop(suite.dir)
    for p in list(pk)[::max(1, len(pk) // 6)]:
        rep.sample({"package": p, "source": texts[p][:1500]})
    ntests = sum(len(i.tests) for items in pk.values() for i in items)
    rep.coverage = {"states": ntests, "transitions": sum(len(i) for i in pk.values()),
                    "traces_validated_against_impl": counts["compared"], "packages": len(pk), "filters": len(targets)}
    rep.assumptions = ["tests of asynchronous functions are not part of the claim"]
    return rep.finish()


vf.main(main)
