"""D01: the documentation page says what the source says.

Enumerated: declarations of every kind with descriptions holding every pair of
troublesome texts, names of every shape, every combination of arguments,
properties, tests and notes, packages using each other, project fields; the
page is read like a browser reads it and compared entry by entry."""
import itertools
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import cc
import page
import vf

deep = not vf.quick()
TEXT = ["word", "<b>", "</div>", "&", "&amp;", "'", "two\n lines", "(x)", "[y]", "//", ">", "a < b", "a `t` b", "é", "a : :b", "<!--", "%s"]
NAMES = ["aa", "aa-b1", "aa<-b1", "aa->b1", "aa<b1", "aa>b1", "it?", "Up", "a2", "to-x<-y-z"]


def texts():
    out = [""] + TEXT + [a + " " + b for a, b in itertools.product(TEXT, repeat=2)]
    if deep:
        out += [a + " " + b + c for a, b, c in itertools.product(TEXT, repeat=3)]
    return out


class Decl:
    lead = ""

    def __init__(self, kind, pkg, name, idx, source, fields):
        self.kind, self.pkg, self.name, self.idx, self.source, self.fields = kind, pkg, name, idx, source, fields
        self.key = "%s_%s/%s" % (kind, pkg, name) + ("_%d" % idx if idx else "")


class Pkg:
    def __init__(self, name, doc=None, libs=()):
        self.name, self.doc, self.libs, self.decls, self.seen = name, doc, list(libs), [], {}

    def _add(self, kind, name, source, fields):
        idx = self.seen.get((kind, name), 0)
        self.seen[(kind, name)] = idx + 1
        self.decls.append(Decl(kind, self.name, name, idx, source, fields))

    def named(self, name, alias):
        return name if not alias or alias == name else "%s (alias: %s)" % (name, alias)

    def const(self, name, typ, value, doc="", alias="", tests=()):
        src = "(const %s : %s %s%s%s%s)" % (name, typ[0], value, note(":doc", doc), note(":alias", alias), test(tests))
        self._add("const", name, src, {"Description": [doc.strip()], "Constant Name": [self.named(name, alias)], "Type": [typ[1]],
                                       "Usage/Test Cases": list(tests), "Source Code": [src]})

    def func(self, name, typ, args=(), body="1", doc="", alias="", tests=()):
        src = "(func %s : %s [%s] %s%s%s%s)" % (
            name, typ[0], " ".join("%s : %s%s" % (a, t[0], note(":doc", d)) for a, t, d in args), body, note(":doc", doc), note(":alias", alias), test(tests))
        self._add("func", name, src, {"Description": [doc.strip()], "Function Name": [self.named(name, alias)], "Return Type": [typ[1]],
                                      "Arguments": [[a, t[1], d.strip()] for a, t, d in args],
                                      "Usage/Test Cases": list(tests), "Source Code": [src]})

    def type(self, name, base, doc="", alias="", props=(), allow=(), disallow=(), allowf=(), tests=()):
        src = "(type %s : %s%s%s%s%s%s%s%s)" % (
            name, base,
            " :properties [%s]" % " ".join("%s : %s%s%s" % (p, t[0], " :default" if dv else "", note(":doc", d)) for p, t, d, dv in props) if props else "",
            " :allowtypes [%s]" % " ".join(t[0] for t in allow) if allow else "",
            " :disallowtypes [%s]" % " ".join(t[0] for t in disallow) if disallow else "",
            " :allowfuncs [%s]" % " ".join(allowf) if allowf else "",
            note(":doc", doc), note(":alias", alias), test(tests))
        f = {"Description": [doc.strip()], "Type Name": [self.named(name, alias)], "Extends": [":" + base], "Usage/Test Cases": list(tests), "Source Code": [src]}
        f["Properties"] = [[p, t[1], d.strip(), "false", "true" if dv else "false"] for p, t, d, dv in props]
        f["Allowed Types"] = [t[0] for t in allow]
        f["Disallow Types"] = [t[0] for t in disallow]
        f["Allowed Functions"] = list(allowf)
        self._add("type", name, src, f)

    def source(self):
        libs = "".join("\n  (lib %s :path %s)" % l for l in self.libs)
        return "(package %s%s%s)\n\n" % (self.name, note("\n :doc", self.doc or ""), "\n :libs" + libs if libs else "") + \
            "\n\n".join(d.lead + d.source for d in self.decls)

    def listed(self, kind):
        return [d for d in self.decls if d.kind == kind]


def note(label, text):
    return ' %s "%s"' % (label, text) if text else ""


def test(tests):
    return " :test " + " ".join(tests) if tests else ""


INT, STR, ANY, LST, FUN = [("int", "vx/core/int"), ("string", "vx/core/string"), ("any", "vx/core/any"), ("intlist", "vx/core/intlist"), ("any<-any", "vx/core/any<-any")]


def packages():
    out = []
    docs = texts()
    p = Pkg("probe/docs", docs[3])
    for i, d in enumerate(docs):
        p.const("c%d" % i, INT, "1", doc=d)
        p.func("f%d" % i, INT, [("a1", INT, d), ("a2", STR, "")], doc=d)
        p.func("g%d" % i, INT, [("a1", INT, "x"), ("a2", STR, d)])
        p.type("t%d" % i, "struct", doc=d, props=[("p1", INT, d, False), ("p2", STR, "", False)])
        p.const("v%d" % i, STR, '"%s"' % d.replace("\n", " "), tests=['(test "%s" v%d)' % (d.replace("\n", " "), i)])
    out.append(p)
    p = Pkg("probe/names")
    for i, n in enumerate(NAMES):
        for alias in ("", "al%d" % i):
            m = n + ("-z" if alias else "")
            p.const("c-" + m, INT, "1", alias=alias)
            p.func("f-" + m, INT, [(n, INT, "")], alias=alias)
            p.type("t-" + m, "struct", props=[(n, INT, "", False)], alias=alias)
    out.append(p)
    p = Pkg("probe/args", "arguments", libs=[("names", "probe/names"), ("collection", "vx/collection")])
    own, ownl, far = ("pt", "probe/args/pt"), ("ptl", "probe/args/ptl"), ("names/t-aa", "probe/names/t-aa")
    p.type("pt", "struct", props=[("x", INT, "", False)])
    p.type("ptl", "list", allow=[own])
    kinds = [INT, own, ownl, FUN, far, ANY, LST]
    n = itertools.count()
    for k in range(0, 4):
        for ts in itertools.product(kinds, repeat=k):
            if k == 3 and not deep and len({t[0] for t in ts}) < 3:
                continue
            p.func("h%d" % next(n), INT, [("a%d" % i, t, "") for i, t in enumerate(ts)])
    for t, b in ((INT, "1"), (STR, '"s"'), (own, "(pt)"), (ownl, "(ptl)"), (LST, "(intlist 1)"), (far, "(names/t-aa)")):
        p.func("r%d" % next(n), t, [], b)
        p.const("k%d" % next(n), t, b)
    for k in range(1, 5):
        for i in range(k):
            p.func("ov%d" % k, INT, [("a%d" % j, INT if j else [INT, STR, LST, own][i], "") for j in range(1 + (k > 2))], str(i), doc="%d of %d" % (i, k))
    for k in range(4):
        p.func("te%d" % k, INT, [], tests=["(test %d (+ (te%d) %d))" % (j + 1, k, j) for j in range(k)])
        p.const("tc%d" % k, INT, "2", tests=["(test %d (+ tc%d %d))" % (j + 2, k, j) for j in range(k)])
        p.type("tt%d" % k, "int", tests=["(test %d %d)" % (j, j) for j in range(k)])
    out.append(p)
    p = Pkg("probe/types", libs=[("args", "probe/args")])
    p.type("pa", "struct", props=[("x", INT, "", False)])
    p.type("pb", "struct", props=[("y", INT, "", False)])
    a, b = ("pa", "probe/types/pa"), ("pb", "probe/types/pb")
    n = itertools.count()
    for k in range(0, 4):
        for ts in itertools.product([INT, STR, a, LST, ("args/pt", "probe/args/pt")], repeat=k):
            if k < 3 or deep or len({t[0] for t in ts}) == 3:
                p.type("s%d" % next(n), "struct", props=[("p%d" % i, t, "", False) for i, t in enumerate(ts)])
    p.type("sd", "struct", props=[("p1", INT, "", False), ("p2", LST, "d", True)])
    for base in ("list", "map", "any"):
        for al in ((), (INT,), (a, b), (b, a), (INT, STR, a)):
            for dis in ((), (LST,), (a, INT)):
                if al or dis or base == "any":
                    p.type("x%d" % next(n), base, allow=al, disallow=dis)
    for base in ("int", "string", "boolean", "float", "decimal"):
        p.type("b-" + base, base, doc="kind of " + base)
    p.type("fl", "list", allowf=["any<-any"])
    out.append(p)
    # declarations and tests that do not start in the first column are shown as if they did
    p = Pkg("probe/cols")
    n = itertools.count()
    for k, j in itertools.product(range(1, 7), range(0, 4)):
        name = "q%d" % next(n)
        p.func(name, INT, [], "1\n%s(test 1\n%s (%s))" % (":test\n" + " " * k, " " * (k + j), name))
        p.decls[-1].fields["Usage/Test Cases"] = ["(test 1\n%s (%s))" % (" " * j, name)]
        name = "q%d" % next(n)
        shown = "(func %s : int []\n%s 1\n :doc \"d\")" % (name, " " * j)
        p._add("func", name, shown.replace("\n", "\n" + " " * k), {"Description": ["d"], "Source Code": [shown]})
        p.decls[-1].lead = " " * k
    out.append(p)
    out.append(Pkg("probe/sub/deep/empty", "nothing <here>"))
    out.append(Pkg("probe/sub/one", libs=[("e", "probe/sub/deep/empty"), ("types", "probe/types"), ("type", "vx/type")]))
    out[-1].func("only", INT, [])
    return out


PROJECT = """(project %(name)s%(fields)s
 :javadomain "com.vxlisp"
 :projects   %(dist)s
 :libs
  (lib cpprandom :path "<random>" :lang :cpp)
  (lib javaniofile :path "java.nio.file.*" :lang :java)
  (lib javafuture :path "java.util.concurrent.CompletableFuture" :lang :java)
  (lib javafunction :path "java.util.function.*" :lang :java)
  (lib javacollectors :path "java.util.stream.Collectors" :lang :java)
 :cmds
  (cmd doc :code :doc :path ../out/doc%(cmd)s)
  (cmd other :code :source :lang :js :path ../out/js :main probe/p/main1 :context vx/core/context-main)
  (cmd serve :code :webserver :path .. :port 8081))"""
LIBS = [["cpprandom", ":cpp", "<random>"], ["javaniofile", ":java", "java.nio.file.*"], ["javafuture", ":java", "java.util.concurrent.CompletableFuture"],
        ["javafunction", ":java", "java.util.function.*"], ["javacollectors", ":java", "java.util.stream.Collectors"]]


def read(comp, pkgs, name, fields, cmd):
    w = comp.workdir()
    prj = PROJECT % {"name": name, "fields": "".join(note("\n " + k, v) for k, v in fields), "dist": vf.DIST, "cmd": note(" :doc", cmd)}
    comp.write(w, {p.name: p.source() for p in pkgs}, project=prj)
    res = comp.run(w, ["doc"])
    path = os.path.join(w, "out/doc/doc.html")
    text = None
    if os.path.exists(path):
        with open(path, encoding="utf-8", newline="") as f:
            text = f.read()
    comp.drop(w)
    return prj, text, str(res[-1])[:1500] if isinstance(res, tuple) else str(res)[:1500]


def judge(text, prj, pkgs, name, fields, cmd):
    """-> [(place, what is wrong)]"""
    bad = []
    pg = page.Page(text)
    bad += [("page", f) for f in pg.faults[:3]]
    ids, links, navs = {}, [], {}
    for n in pg.root.walk():
        i = n.attrs.get("id")
        if i is not None:
            ids.setdefault(i, []).append(n)
        t = page.target(n)
        if t is not None:
            links.append((t, n))
    bad += [("page", "id %s occurs %d times" % (i, len(v))) for i, v in ids.items() if len(v) > 1]
    generic = {"type_vx/core/%s-%d" % (b, k) for b in ("any", "list", "map", "struct") for k in (1, 2, 3)}
    dead = sorted({t for t, _ in links if "d_" + t not in ids} - generic)
    bad += [("link " + t, "leads nowhere") for t in dead]

    def compare(key, want):
        box = ids.get("d_" + key)
        if not box:
            bad.append((key, "has no entry in the page"))
            return None
        got = page.parts(box[0])
        for label, v in want.items():
            if got.get(label, []) != v:
                bad.append((key, "%s: page says %r, source says %r" % (label, got.get(label, [])[:6], v[:6])))
        return box[0]
    want = {"Project Name": [name], "Libraries": LIBS, "Source Code": [prj]}
    for k, v in fields:
        want[{":version": "Version", ":author": "Author", ":doc": "Description"}[k]] = [v.strip()]
    want["Java Domain"] = ["com.vxlisp"]
    want["Commands"] = [["doc", ":doc", "../out/doc", "", "", "", "0", cmd.strip()],
                        ["other", ":source", "../out/js", ":js", "probe/p/main1", "vx/core/context-main", "0", ""],
                        ["serve", ":webserver", "..", "", "", "", "8081", ""]]
    box = compare("prj", want)
    shown = page.parts(box)["Packages"] if box else []
    for p in pkgs:
        if shown.count(p.name) != 1:
            bad.append((p.name, "listed %d times in the project" % shown.count(p.name)))
    count = 1
    for p in pkgs:
        libs = [["vx/core", "vx/core"], ["vx/test", "vx/test"]] + [list(l) for l in p.libs]
        box = compare("pkg_" + p.name, {"Description": [(p.doc or "").strip()], "Package Name": [p.name], "Source Code": [p.source().strip()]})
        count += 1
        if box is not None:
            if sorted(page.parts(box).get("Libraries", [])) != sorted(libs):
                bad.append((p.name, "Libraries: page says %r, source says %r" % (page.parts(box).get("Libraries"), libs)))
            for kind, label, cls in (("type", "Types", "ntype"), ("const", "Constants", "nconst"), ("func", "Functions", "nfunc")):
                got = [(page.target(n), n.text()) for n in box.walk() if cls in n.cls()]
                exp = [(d.key, d.name) for d in p.listed(kind)]
                if got != exp:
                    bad.append((p.name, "%s: page lists %r, source declares %r" % (label, diff(got, exp), diff(exp, got))))
        nav = ids.get("n_pkgnav_" + p.name)
        if not nav:
            bad.append((p.name, "is missing in the navigation"))
        else:
            got = [(page.target(n), n.text().split()[-1]) for n in nav[0].walk() if page.target(n)]
            exp = [(d.key, d.name) for kind in ("type", "const", "func") for d in p.listed(kind)]
            if got != exp:
                bad.append((p.name, "navigation lists %r, source declares %r" % (diff(got, exp), diff(exp, got))))
        for d in p.decls:
            box = compare(d.key, d.fields)
            count += 1
            if box is not None:
                head = [n.text() for n in box.walk() if "header" in n.cls()]
                if head != ["%s / %s" % (p.name, d.name)]:
                    bad.append((d.key, "headed %r" % head))
    own = {"d_prj"} | {"d_pkg_" + p.name for p in pkgs} | {"d_" + d.key for p in pkgs for d in p.decls}
    extra = sorted(i for i in ids if "probe/" in i and i.startswith("d_") and i not in own)
    bad += [(i, "is in the page but not in the source") for i in extra]
    return bad, count, len(links)


def diff(a, b):
    return [x for x in a if x not in b][:4] or ("the same in another order" if a != b else "")


def main():
    rep = vf.Report("D01", "model_checking")
    comp = cc.CC("D01")
    jobs = [(packages(), "probe", [(":version", "0.1"), (":doc", "all")], "say")]
    one = Pkg("probe/p", "main")
    one.func("main1", INT, [])
    for i, t in enumerate(TEXT):
        jobs.append(([one], "probe", [(":version", t), (":author", TEXT[i - 1]), (":doc", TEXT[i - 2])], TEXT[i - 3]))
    for n in ("other", "a-b", "my-project"):
        jobs.append(([one], n, [], ""))
    two = []
    for i, (a, b) in enumerate(itertools.permutations(["aa", "bb", "cc"], 2)):
        q = Pkg("probe/" + a, "uses " + b, libs=[(b, "probe/" + b)])
        r = Pkg("probe/" + b, "")
        q.func("fa", INT, [("x", ("%s/tb" % b, "probe/%s/tb" % b), "")])
        r.type("tb", "struct", props=[("y", INT, "", False)])
        jobs.append(([q, r], "probe", [], ""))

    def run(job):
        pkgs, name, fields, cmd = job
        prj, text, log = read(comp, pkgs, name, fields, cmd)
        if text is None:
            return [("page", "is not written: " + log)], 0, 0
        return judge(text, prj, pkgs, name, fields, cmd)
    results = cc.parallel(run, jobs)
    entries = links = 0
    for job, (bad, n, k) in zip(jobs, results):
        if bad:
            bad = run(job)[0]
        entries += n
        links += k
        for place, what in bad[:8]:
            rep.violation("%s %s" % (job[1], place), "%s: %s" % (place, what), {"project": job[1], "packages": {p.name: p.source()[:4000] for p in job[0]}, "place": place, "what": what})
    for p in jobs[0][0]:
        if p.decls:
            d = p.decls[len(p.decls) // 2]
            rep.sample({"source": d.source, "entry": d.key})
    rep.coverage = {"states": entries, "transitions": links, "traces_validated_against_impl": len(jobs), "pages": len(jobs)}
    rep.assumptions = ["links of generic placeholder types and the page's styling are not part of the claim"]
    return rep.finish()


vf.main(main)
