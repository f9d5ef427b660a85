"""C01: objects of generated C++ code are freed exactly once.

Enumerated: every expression built from two levels of the forms below (calls,
let, if, switch, functions as values, constructors, struct, list and map access,
copies, constants, arguments used never, once or more often), each in a function
of its own.  Every function is called in a program built with the address
sanitizer; after the result is released the number of live objects must be what it
was, and no freed object may be touched."""
import itertools
import os
import re
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import cc
import rt
import vf

deep = not vf.quick()
HEAD = """(type pt : struct :properties [x : int
  l : intlist
  n : string])
(type ptlist : list :allowtypes [pt])
(type ptmap : map :allowtypes [pt])
(type base : struct :properties [k : string])
(type kid : struct :traits [base] :properties [p : pt])
(const ci : int 3)
(const cs : string "c")
(const cl : intlist (intlist 1 2))
(const cp : pt (pt :x 1 :n "q"))
(func idi : int [v : int] v)
(func ids : string [v : string] v)
(func idl : intlist [v : intlist] v)
(func idp : pt [v : pt] v)
(func none : int [v : any] 7)
(func fst : int [v1 : int v2 : int] v1)
(func snd : intlist [v1 : intlist v2 : intlist] v2)
(func dup : intlist [v : int] (intlist v v v))
(func both : pt [v : pt] (pt :x (+ (:x v) (:x v)) :l (:l v) :n (:n v)))
(func mix : pt [v1 : int v2 : intlist v3 : string] (pt :x v1 :l v2 :n v3))
(func sum : int [nums : intlist :...] (+ nums))
(func down : int [v : int] (if : int (then (< v 1) 0) (else (+ v (down (- v 1))))))
(func grow : intlist [v : int] (if : intlist (then (< v 1) (intlist)) (else (intlist v (grow (- v 1))))))
(func over : int [v : int] (+ v 1))
(func over : int [v : string] (length v))
"""
# result type -> templates; a hole is <type>; $ is a number unique to the use
FORMS = {
    "int": ["3", "ci", "(+ <int> <int>)", "(idi <int>)", "(none <list>)", "(none <pt>)", "(none <str>)", "(fst <int> <int>)",
            "(let : int [a$ : int := <int>] (+ a$ a$))", "(let : int [a$ : int := <int>] 5)", "(let : int [a$ : pt := <pt>] (+ (:x a$) (:x a$)))",
            "(let : int [a$ : intlist := <list> b$ : int := (length a$)] b$)",
            "(if : int (then <bool> <int>) (else <int>))", "(switch : int <int> (case 3 <int>) (else 9))", "(:x <pt>)",
            "(any<-list : int <list> 1)", "(any<-list : int <list> 9)", "(length <list>)", "(length <str>)", "(sum <int> <int>)", "(sum <list>)",
            "(down <int>)", "(over <int>)", "(over <str>)", "(any<-map : int <map> :a)", "(:x (any<-list : pt <ptl> 1))",
            "(any<-any : int <int>)", "(any<-list-start-reduce : int <list> (idi <int>) (fn : int [t$ : int e$ : int] (+ t$ e$)))",
            "(any<-list-start-reduce-next : int <list> <int> (fn : int [t$ : int e$ : int n$ : int] (+ t$ (- e$ n$))))",
            "(any<-map-start-reduce : int <map> <int> (fn : int [t$ : int k$ : string e$ : int] (+ t$ e$)))",
            "(first<-list : int <list>)", "(last<-list : int <list>)", "(* <int> <int>)", "(- <int> <int>)", "(int<-string-find <str> \"b\")",
            "(any<-struct : int <pt> :x)", "(if : int (then (= <int> 3) <int>) (then <bool> <int>) (else <int>))"],
    "bool": ["true", "(= <int> <int>)", "(= <list> <list>)", "(= <pt> <pt>)", "(< <int> 5)", "(! <bool>)", "(is-empty <str>)", "(and <bool> <bool>)", "(or <bool> <bool>)",
             "(contains <str> <str>)", "(!= <str> <str>)", "(is-empty <list>)"],
    "str": ['"a"', "cs", "(ids <str>)", "(string <str> <str>)", "(string <int>)", "(:n <pt>)",
            "(let : string [a$ : string := <str>] (string a$ a$))", "(if : string (then <bool> <str>) (else <str>))", "(string<-any <list>)",
            "(string<-any <pt>)", "(:k (kid :k <str> :p <pt>))", "(string<-string-find-replace <str> \"a\" \"b\")",
            "(string<-stringlist-join (stringlist <str> <str>) \",\")", "(string-uppercase <str>)", "(string<-string-start-end <str> 1 <int>)",
            "(any<-list : string (stringlist<-string-split <str> \",\") 1)", "(any<-list : string (stringlist<-map <map>) 1)", "(typename<-any <pt>)"],
    "list": ["(intlist)", "cl", "(intlist <int> <int>)", "(intlist <list> <int>)", "(idl <list>)", "(snd <list> <list>)", "(dup <int>)",
             "(grow <int>)", "(:l <pt>)", "(let : intlist [a$ : intlist := <list>] (intlist a$ a$))",
             "(if : intlist (then <bool> <list>) (else <list>))",
             "(list<-list : intlist <list> (fn : int [e$ : int] (+ e$ 1)))",
             "(let : intlist [a$ : int := <int>] (list<-list : intlist <list> (fn : int [e$ : int] (+ e$ a$))))",
             "(let : intlist [a$ : pt := <pt>] (list<-list : intlist (intlist 1 2) (fn : int [e$ : int] (+ e$ (:x a$)))))",
             "(let : intlist [a$ : intlist := <list> b$ : intlist := (intlist a$ 1)] (intlist b$ a$))",
             "(list<-list : intlist <list> idi)", "(intlist <any>)", "(intlist <any> <list> <any>)",
             "(list<-list-join : intlist <ptl> (fn : intlist [e$ : pt] (:l e$)))", "(:l (:p (kid :p <pt>)))",
             "(list<-list-intany : intlist <list> (fn : int [p$ : int e$ : int] (+ p$ e$)))", "(list<-list-filter : intlist <list> (fn : int [e$ : int] (if (> e$ 4) e$)))",
             "(list<-map : intlist <map> (fn : int [k$ : string e$ : int] (+ e$ 1)))", "(list<-list-start-end : intlist <list> 1 <int>)",
             "(let : intlist [a$ : intlist := <list>] (list<-list : intlist a$ (fn : int [e$ : int] (+ e$ (length a$)))))",
             "(list<-list : intlist <ptl> (fn : int [e$ : pt] (:x e$)))"],
    "pt": ["(pt)", "cp", "(pt :x <int> :l <list> :n <str>)", "(idp <pt>)", "(both <pt>)", "(mix <int> <list> <str>)", "(copy : pt <pt> :x <int>)",
           "(copy : pt <pt> :l <list> :n <str>)", "(let : pt [a$ : pt := <pt>] (pt :x (:x a$) :l (:l a$)))",
           "(let : pt [a$ : pt := <pt>] (copy : pt a$ :l (:l a$)))", "(if : pt (then <bool> <pt>) (else <pt>))", "(any<-list : pt <ptl> 1)",
           "(any<-map : pt <ptm> :k)", "(:p (kid :k <str> :p <pt>))", "(pt :x <int> :x <int>)", "(pt :l <list> :n <str> :l <list>)",
           "(:p (copy : kid (kid :p <pt>) :p <pt>))"],
    "map": ["(intmap)", "(intmap :a <int> :b 2 :a <int>)", "(intmap <map> :c <int>)", "(intmap :z <any>)",
            "(map<-list : intmap <list> (fn : string [e$ : int] (string e$)))",
            "(intmap :a <int> :b <int>)", "(map<-map : intmap <map> (fn : int [k$ : string e$ : int] (+ e$ 1)))",
            "(map<-map-start-end : intmap <map> 1 <int>)", "(copy : intmap <map> :a <int>)", "(let : intmap [a$ : intmap := <map>] (intmap :a (any<-map : int a$ :a)))"],
    "any": ["(any<-list : any <anyl> 1)", "(any<-list : any <anyl> 2)", "(any<-list : any <anyl> 9)", "(any<-map : any <anym> :a)"],
    "anyl": ["(anylist <int> <str>)", "(anylist <list> <pt>)", "(let : anylist [a$ : anylist := <anyl>] (anylist 1 (any<-list : any a$ 1)))", "(anylist <any> <any>)"],
    "anym": ["(anymap :a <int> :b <pt>)", "(anymap :a <list> :a <pt>)", "(anymap :a <any>)"],
    "ptl": ["(ptlist)", "(ptlist <pt> <pt>)", "(ptlist <any> <pt>)", "(ptlist <ptl> <ptl>)", "(let : ptlist [a$ : pt := <pt>] (ptlist a$ a$))",
            "(list<-list : ptlist (intlist 1 2) (fn : pt [e$ : int] (pt :x e$ :l <list>)))"],
    "ptm": ["(ptmap)", "(ptmap :k <pt>)", "(ptmap :k <pt> :j <pt> :k <pt>)", "(ptmap :k <any>)", "(map<-list : ptmap <ptl> (fn : string [e$ : pt] (:n e$)))"],
}
TYPES = {"int": "int", "bool": "boolean", "str": "string", "list": "intlist", "pt": "pt", "map": "intmap", "ptl": "ptlist", "ptm": "ptmap", "any": "any", "anyl": "anylist", "anym": "anymap"}
HOLE = re.compile(r"<(int|bool|str|list|pt|map|ptl|ptm|any|anyl|anym)>")
BASE = {"int": "(idi 2)", "bool": "(< 1 2)", "str": '(string "a" "b")', "list": "(intlist 4 5)", "pt": '(pt :x 6 :l (intlist 7) :n "n")',
        "map": "(intmap :a 8)", "ptl": "(ptlist (pt :x 9) cp)", "ptm": "(ptmap :k (pt :x 1) :j cp)", "any": "(any<-list : any (anylist 1 \"s\") 2)", "anyl": "(anylist (pt :x 2) \"t\")",
        "anym": "(anymap :a (intlist 3) :b \"u\")"}


def number(text, count):
    """each use of a template gets names of its own"""
    k = next(count)
    return text.replace("$", str(k))


def fill(text, subs):
    it = iter(subs)
    return HOLE.sub(lambda m: next(it), text)


def expressions():
    """every form with every form in one of its places, the others filled with plain values"""
    for t, forms in FORMS.items():
        for form in forms:
            holes = HOLE.findall(form)
            count = itertools.count(1)
            outer = number(form, count)
            plain = [BASE[h] for h in holes]
            yield t, fill(outer, plain)
            for pos, h in enumerate(holes):
                for inner in FORMS[h]:
                    count = itertools.count(2)
                    subs = list(plain)
                    subs[pos] = fill(number(inner, count), [BASE[x] for x in HOLE.findall(inner)])
                    yield t, fill(outer, subs)
                    if deep:
                        for p2, h2 in enumerate(HOLE.findall(inner)):
                            for third in FORMS[h2][:6]:
                                s2 = [BASE[x] for x in HOLE.findall(inner)]
                                s2[p2] = fill(third.replace("$", "3"), [BASE[x] for x in HOLE.findall(third)])
                                subs[pos] = fill(inner.replace("$", "2"), s2)
                                yield t, fill(outer, subs)
            # the same value in every place
            if len(holes) > 1 and len(set(holes)) == 1:
                for inner in FORMS[holes[0]]:
                    subs = [fill(inner.replace("$", str(2 + k)), [BASE[x] for x in HOLE.findall(inner)]) for k in range(len(holes))]
                    yield t, fill(outer, subs)


# the generated collection classes called as native code calls them
NEW = {
    "vx_core::t_intlist": "vx_core::vx_new_int(%d)", "vx_core::t_anylist": "vx_core::vx_new_string(\"%d\")", "vx_core::t_stringlist": "vx_core::vx_new_string(\"%d\")",
    "probe_p0::t_ptlist": "vx_core::vx_new(probe_p0::t_pt, {vx_core::vx_new_string(\":x\"), vx_core::vx_new_int(%d)})",
    "vx_core::t_intmap": "vx_core::vx_new_int(%d)", "vx_core::t_anymap": "vx_core::vx_new_string(\"%d\")", "vx_core::t_stringmap": "vx_core::vx_new_string(\"%d\")",
    "probe_p0::t_ptmap": "vx_core::vx_new(probe_p0::t_pt, {vx_core::vx_new_string(\":x\"), vx_core::vx_new_int(%d)})",
}


def native():
    """(what, C++ statements returning a value)"""
    for t, item in NEW.items():
        n = t.split("_")[-1]
        wrong = ["vx_core::vx_new_int(9)" if "string" in t else "vx_core::vx_new_string(\"w\")"]
        for k in range(0, 4):
            items = [item % i for i in range(k)]
            for bad in ([], wrong):
                if t.endswith("list"):
                    make = "%s->vx_new_from_list({%s})" % (t, ", ".join(items + bad))
                    plain = "vx_core::vx_new(%s, {%s})" % (t, ", ".join(items + bad))
                    keys = ["vx_core::vx_new_int(%d)" % i for i in (-1, 0, 1, 2, 5)]
                else:
                    make = "%s->vx_new_from_map({%s})" % (t, ", ".join('{"k%d", %s}' % e for e in enumerate(items + bad)))
                    plain = "vx_core::vx_new(%s, {%s})" % (t, ", ".join('vx_core::vx_new_string(":k%d"), %s' % e for e in enumerate(items + bad)))
                    keys = ['vx_core::vx_new_string("%s")' % i for i in ("k0", ":k1", "k2", "no")]
                yield "%s of %d items%s" % (n, k, " and a wrong one" if bad else ""), "return %s;" % make
                yield "new %s of %d items%s" % (n, k, " and a wrong one" if bad else ""), "return %s;" % plain
                for key in keys:
                    yield "item %s of %s of %d items%s" % (key, n, k, " and a wrong one" if bad else ""), (
                        "auto c = %s; vx_core::vx_reserve(c); vx_core::Type_any v = c->vx_get_any(%s); vx_core::vx_release_one_except(c, v); return v;" % (plain, key))
                if t.endswith("map"):
                    for key in keys:
                        for val in ([item % 7, wrong[0]] + (["vx_core::e_any"] if n == "anymap" else [])):
                            yield "set %s of %s of %d items%s to %s" % (key, n, k, " and a wrong one" if bad else "", val), (
                                "auto c = %s; if (c == %s) { return c; } vx_core::vx_reserve(c); auto n = %s; vx_core::Type_any w = %s; vx_core::vx_reserve({n, w}); c->vx_set(n, w); vx_core::vx_release_one({n, w}); "
                                "vx_core::vx_release_one(c); return vx_core::e_any;" % (plain, t.replace("::t_", "::e_"), key, val))


def props():
    for key in ("x", ":x", ":l", ":n", "no", ":p"):
        for t, val in (("probe_p0::t_pt", '{vx_core::vx_new_string(":x"), vx_core::vx_new_int(3), vx_core::vx_new_string(":n"), vx_core::vx_new_string("q")}'),
                       ("probe_p0::t_pt", "{}"), ("probe_p0::t_kid", '{vx_core::vx_new_string(":p"), vx_core::vx_new(probe_p0::t_pt, {vx_core::vx_new_string(":x"), vx_core::vx_new_int(3)})}')):
            yield "property %s of %s %s" % (key, t, val), (
                'auto c = vx_core::vx_new(%s, %s); vx_core::vx_reserve(c); vx_core::Type_any v = c->vx_get_any(vx_core::vx_new_string("%s")); vx_core::vx_release_one_except(c, v); return v;' % (t, val, key))


MAIN = """#include <cstdio>
#include <cstdlib>
#include <string>
#include "src/main/vx/core.hpp"
%(incl)s
typedef vx_core::Type_any (*vf_fn)();
%(decl)s
int main(int argc, char** argv) {
  long from = atol(argv[1]);
%(body)s
  puts("END");
  fflush(stdout);
  _Exit(0);
}
"""


def main():
    rep = vf.Report("C01", "model_checking")
    C = cc.CC("C01")
    exprs = list(dict.fromkeys(expressions()))
    size = 450
    packs, tests = {}, []
    for b in range(0, len(exprs), size):
        p = "probe/p%d" % (b // size)
        text = cc.HEAD % p + HEAD
        for k, (t, e) in enumerate(exprs[b:b + size]):
            text += "(func t%d : %s [] %s)\n" % (k, TYPES[t], e)
            tests.append((p, k, e))
        packs[p] = text
    work = C.workdir()
    C.write(work, packs)
    log = C.run(work, ["srccpp"])[1]
    d = os.path.join(work, "out", "cpp")
    if not os.path.isdir(d):
        # find the programs the compiler refuses
        rep.violation("generate", "correct programs are refused: %s" % log[-3000:], {"packages": packs, "log": log[-8000:]})
        rep.exhaustive = False
        rep.coverage = {"states": len(exprs), "transitions": 0, "traces_validated_against_impl": 0}
        return rep.finish()

    def shell(cmd, timeout=850):
        p = vf.run(cmd, cwd=d, timeout=timeout)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    units, todo = [], [p for p in packs]
    while todo:
        u = os.path.normpath(todo.pop())
        if u in units or not os.path.exists(os.path.join(d, "src/main", u + ".cpp")):
            continue
        units.append(u)
        for ext in (".cpp", ".hpp"):
            with open(os.path.join(d, "src/main", u + ext), encoding="utf-8") as f:
                todo += [os.path.join(os.path.dirname(u), i) for i in re.findall(r'#include "([^"]+)\.hpp"', f.read())]
    body = "".join("  if (from <= %d) { one(%d, []() -> vx_core::Type_any { return %s::f_t%d(); }); }\n" % (
        k, k, rt.identifier(p), n) for k, (p, n, _) in enumerate(tests))
    for what, code in list(native()) + list(props()):
        body += "  if (from <= %d) { one(%d, []() -> vx_core::Type_any { %s }); }\n" % (len(tests), len(tests), code)
        tests.append((None, None, what))
    decl = """static void one(long n, vf_fn f) {
  printf("@%ld", n); fflush(stdout);
  for (int k = 0; k < 2; k++) { vx_core::Type_any v = f(); vx_core::vx_release(v); }   // lazily made objects exist now
  long before = vx_core::refcount;
  for (int k = 0; k < 2; k++) { vx_core::Type_any v = f(); vx_core::vx_release(v); }
  printf(" %ld\\n", vx_core::refcount - before); fflush(stdout);
}
"""
    with open(os.path.join(d, "live.cpp"), "w") as f:
        f.write(MAIN % {"incl": "".join('#include "src/main/%s.hpp"\n' % p for p in packs), "decl": decl, "body": body})
    flags = ["-std=c++20", "-O0", "-w", "-fsanitize=address", "-fno-omit-frame-pointer"]

    def unit(u):
        return u, shell(["ccache", "g++"] + flags + ["-I.", "-c", "src/main/%s.cpp" % u if u != "live" else "live.cpp", "-o", u.replace("/", "__") + ".o"])
    units.append("live")
    for u, (rc, text) in cc.parallel(unit, sorted(units, key=lambda u: not u.startswith("probe"))):
        if rc:
            if "error:" not in text:
                raise vf.CheckError("compile %s: %s" % (u, text[-3000:]))
            rep.violation("compile " + u, "the generated code of %s does not compile: %s" % (u, text[:1500]), {"package": packs.get(u), "output": text[:6000]})
    if rep.violations:
        rep.exhaustive = False
        rep.coverage = {"states": len(exprs), "transitions": 0, "traces_validated_against_impl": 0}
        return rep.finish()
    rc, text = shell(["g++"] + flags + [u.replace("/", "__") + ".o" for u in units] + ["-pthread", "-o", "live"])
    if rc:
        raise vf.CheckError("link: " + text[-3000:])
    seen, start, runs = {}, 0, 0
    crashes = {}
    while start < len(tests) and runs < 60:
        runs += 1
        rc, text = shell(["env", "ASAN_OPTIONS=detect_leaks=0", "./live", str(start)])
        last = None
        for line in text.split("\n"):
            m = re.match(r"^@(\d+)(?: (-?\d+))?", line)
            if m:
                last = int(m.group(1))
                if m.group(2) is not None:
                    seen[last] = int(m.group(2))
        if re.search(r"^END$", text, re.M):
            break
        if last is None:
            if start or shell(["env", "ASAN_OPTIONS=detect_leaks=0", "./live", "999999"])[0] == 0:
                raise vf.CheckError("the program stops: " + text[-2000:])
            rep.violation("start", "C++: a program touches freed memory or stops before it runs anything: %s" % text[:1500], {"packages": packs, "output": text[-5000:]})
            rep.exhaustive = False
            break
        crashes[last] = text[-5000:]
        start = last + 1
    else:
        rep.exhaustive = False
    for k, text in crashes.items():
        p, n, e = tests[k]
        head = re.search(r"ERROR: AddressSanitizer: [^\n]*", text)
        rep.violation("crash %s" % e, "C++: evaluating %s touches freed memory or stops: %s" % (e, head.group(0) if head else text[:300]),
                      {"expression": e, "package": cc.HEAD % "probe/p" + HEAD + "(func t0 : any [] %s)\n" % e, "output": text})
    for k, live in seen.items():
        if live:
            e = tests[k][2]
            rep.violation("live %s" % e, "C++: evaluating %s twice and releasing the results changes the number of live objects by %d" % (e, live),
                          {"expression": e, "package": cc.HEAD % "probe/p" + HEAD + "(func t0 : any [] %s)\n" % e})
    for k in list(seen)[::max(1, len(seen) // 8)]:
        rep.sample({"expression": tests[k][2], "live_objects_left": seen[k]})
    rep.coverage = {"states": len(tests), "transitions": 4 * len(seen), "traces_validated_against_impl": len(seen), "program_runs": runs}
    rep.assumptions = ["the generated runtime's own count of live objects is the measure for leaks; the address sanitizer for early frees"]
    return rep.finish()


vf.main(main)
