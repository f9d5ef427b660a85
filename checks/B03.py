"""B03: packages that use each other.

Enumerated: every acyclic library graph over three (four) packages whose names
sort in every order, with types, constants, functions and overloads taken from
the libraries, run in three targets; every cyclic graph and every missing
library must be refused without writing anything."""
import itertools
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import cc
import progs
import rt
import vf
from rt import L, S

deep = not vf.quick()
LET = "abcd"


def graphs(n, cyclic):
    pairs = [(i, j) for i in range(n) for j in range(n) if i != j]
    for bits in itertools.product((0, 1), repeat=len(pairs)):
        refs = {i: [j for (a, j), b in zip(pairs, bits) if b and a == i] for i in range(n)}
        left = set(range(n))
        while True:
            free = [i for i in left if not any(j in left for j in refs[i])]
            if not free:
                break
            left -= set(free)
        if bool(left) == cyclic:
            yield refs


def reach(refs, i):
    seen, todo = set(), [i]
    while todo:
        k = todo.pop()
        for j in refs[k]:
            if j not in seen:
                seen.add(j)
                todo.append(j)
    return seen


def head(name, libs):
    return "(package %s\n :libs\n%s  (lib collection :path vx/collection)\n  (lib type :path vx/type))\n\n" % (
        name, "".join("  (lib %s :path %s)\n" % l for l in libs))


def package(g, i, refs, form):
    """text of package i of graph g; form: how a library's names are written"""
    me = LET[i]
    q = (lambda j, n: "l%s/%s" % (LET[j], n)) if form == "qualified" else (lambda j, n: n)
    out = head("probe/g%d%s" % (g, me), [("l" + LET[j], "probe/g%d%s" % (g, LET[j])) for j in refs[i]])
    props = "".join(" p%s : %s" % (LET[j], q(j, "t-" + LET[j])) for j in refs[i])
    out += "(type t-%s : struct :properties [v%s : int%s])\n" % (me, me, props)
    out += "(type u-%s : list :allowtypes [t-%s])\n" % (me, me)
    out += "(const k-%s : int (+ %d 0%s))\n" % (me, 10 ** i, "".join(" " + q(j, "k-" + LET[j]) for j in refs[i]))
    out += "(const s-%s : t-%s (t-%s :v%s %d%s))\n" % (me, me, me, me, i + 1, "".join(
        " :p%s %s" % (LET[j], q(j, "s-" + LET[j])) for j in refs[i]))
    out += "(func f-%s : int [] (+ k-%s 0%s))\n" % (me, me, "".join(" (%s)" % q(j, "f-" + LET[j]) for j in refs[i]))
    # a value of the library's type made by the library, and read here
    out += "(func mk-%s : t-%s [n1 : int] (t-%s :v%s n1%s))\n" % (me, me, me, me, "".join(
        " :p%s (%s (+ n1 1))" % (LET[j], q(j, "mk-" + LET[j])) for j in refs[i]))
    # an overload per package: the argument's type picks the package
    out += '(func ov : string [a1 : t-%s] "%s")\n' % (me, me)
    funcs = {"m-f": ("int", "(f-%s)" % me), "m-s": ("t-" + me, "s-" + me), "m-k": ("int", "k-" + me),
             "m-mk": ("t-" + me, "(mk-%s 5)" % me), "m-ov": ("string", "(ov (mk-%s 1))" % me),
             "m-list": ("u-" + me, "(u-%s (mk-%s 1) s-%s)" % (me, me, me))}
    for j in refs[i]:
        o = LET[j]
        funcs["m-r" + o] = ("int", "(:v%s (:p%s (mk-%s 5)))" % (o, o, me))
        funcs["m-t" + o] = (q(j, "t-" + o), "(%s :v%s 9)" % (q(j, "t-" + o), o))
        funcs["m-l" + o] = (q(j, "u-" + o), "(%s %s (%s 2))" % (q(j, "u-" + o), q(j, "s-" + o), q(j, "mk-" + o)))
        funcs["m-o" + o] = ("string", "(ov (%s 1))" % q(j, "mk-" + o) if form != "qualified"
                            else "(%s (%s 1))" % (q(j, "ov"), q(j, "mk-" + o)))
        for k in refs[j]:
            p = LET[k]
            if k in refs[i]:      # a type two libraries away, also a library of this package
                funcs["m-d%s%s" % (o, p)] = ("int", "(:v%s (:p%s (%s 5)))" % (p, p, q(j, "mk-" + o)))
    for n, (t, e) in funcs.items():
        out += "(func %s : %s [] %s)\n" % (n, t, e)
    return out, list(funcs)


def model(refs):
    k = {}
    f = {}

    def kk(i):
        if i not in k:
            k[i] = 10 ** i + sum(kk(j) for j in refs[i])
        return k[i]

    def ff(i):
        if i not in f:
            f[i] = kk(i) + sum(ff(j) for j in refs[i])
        return f[i]

    def mk(i, n):
        return S("t-" + LET[i], ("v" + LET[i], n), *[("p" + LET[j], mk(j, n + 1)) for j in refs[i]])

    def s(i):
        return S("t-" + LET[i], ("v" + LET[i], i + 1), *[("p" + LET[j], s(j)) for j in refs[i]])

    def value(i, fn):
        if fn in ("m-f", "m-k", "m-s", "m-mk", "m-ov", "m-list"):
            return {"m-f": ff, "m-k": kk, "m-s": s, "m-mk": lambda x: mk(x, 5), "m-ov": lambda x: LET[x],
                    "m-list": lambda x: L("u-" + LET[x], mk(x, 1), s(x))}[fn](i)
        j = LET.index(fn[-1])
        if fn[2] == "r":
            return 6
        if fn[2] == "t":
            return S("t-" + LET[j], ("v" + LET[j], 9))
        if fn[2] == "l":
            return L("u-" + LET[j], s(j), mk(j, 2))
        if fn[2] == "o":
            return LET[j]
        return 6
    return value


def accepted(rep, n, forms, langs, name):
    packages, expect, shape = {}, {}, {}
    for g, (refs, form) in enumerate(itertools.product(graphs(n, False), forms)):
        value = model(refs)
        for i in refs:
            text, funcs = package(g, i, refs, form)
            pkg = "probe/g%d%s" % (g, LET[i])
            packages[pkg] = text
            shape[pkg] = "%s %s" % ({LET[a]: [LET[b] for b in bs] for a, bs in refs.items()}, form)
            for f in funcs:
                expect[(pkg, f)] = value(i, f)
    ran = progs.run(rep, name, packages, expect, langs=langs,
                    label=lambda p, f: "libraries %s: %s of %s" % (shape[p], f, p))
    return len(packages), len(expect), ran, shape, packages


def refused(rep, C):
    """cycles, libraries that do not exist, a package that is its own library"""
    cases = []
    for n in (1, 2, 3):
        for refs in (graphs(n, True) if n > 1 else [{0: [0]}]):
            cases.append(("cycle", refs, None))
    for n in (1, 2, 3):
        for refs in graphs(n, False):
            for i in range(n):
                cases.append(("missing", refs, i))

    def one(case):
        kind, refs, miss = case
        packages = {}
        for i in refs:
            packages["probe/g0" + LET[i]] = package(0, i, refs, "qualified")[0] if refs[i] != [i] else (
                head("probe/g0a", [("la", "probe/g0a")]) + "(func f-a : int [] 1)\n")
        if miss is not None:
            name = "probe/g0" + LET[miss]
            packages[name] = packages[name].replace(" :libs\n", " :libs\n  (lib gone :path probe/gone)\n", 1)
        res = C.compile(packages, keep=True)
        left = res.files()
        again = None
        if res.ok or left or "error" not in res.log.lower():
            again = C.compile(packages, keep=False)
        C.drop(res.dir)
        return case, packages, res, left, again
    for case, packages, res, left, again in cc.parallel(one, cases):
        if again is not None:
            what = "accepted" if res.ok else "refused but files are written" if left else "refused without an error message"
            rep.violation("%s %s" % (case[0], case[1:]), "a %s is %s: libraries %s %s\n%s" % (
                {"cycle": "cycle of libraries", "missing": "library that does not exist"}[case[0]], what,
                case[1], case[2], res.log[:300]), {"packages": packages, "log": res.log[:3000]})
    return len(cases)


def main():
    rep = vf.Report("B03", "model_checking")
    C = cc.CC("B03")
    npkg, nexp, ran, shape, packages = accepted(rep, 3, ("qualified", "plain"), rt.LANGS if deep else ("js", "java"), "B03")
    if not deep:
        ran += accepted(rep, 3, ("plain",), ("cpp",), "B03c")[2]
    if deep:
        for k, form in enumerate(("qualified", "plain")):
            a, b, c, _, _ = accepted(rep, 4, (form,), ("js",), "B03x%d" % k)
            npkg, nexp, ran = npkg + a, nexp + b, ran + c
    nref = refused(rep, C)
    for p in list(packages)[::max(1, len(packages) // 6)]:
        rep.sample({"libraries": shape[p], "package": packages[p]})
    rep.coverage = {"states": nexp + nref, "transitions": npkg, "traces_validated_against_impl": ran + nref,
                    "packages": npkg, "refused_projects": nref}
    return rep.finish()


vf.main(main)
