"""R06: types a program declares itself.

Enumerated: every struct over a set of property types (with and without a trait,
with and without a default property), every list and map type over them; for each
every constructor call over subsets and orders of properties, every property read,
every copy; run in three targets and compared with plain records."""
import itertools
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import cc
import progs
import rt
import vf
from rt import L, M, S

deep = not vf.quick()
BASE = """(type pt : struct :properties [x : int nm : string])
(type ptlist : list :allowtypes [pt])
(type ptmap : map :allowtypes [pt])
(type listlist : list :allowtypes [intlist])
(type base : struct :properties [b1 : int b2 : stringlist])
(type deepbase : struct :traits [base] :properties [b3 : string])
(type side : struct :traits [base] :properties [b4 : int])
(func same-key : string [w9 : string] w9)

"""
P1 = ("(pt :x 1 :nm \"p\")", S("pt", ("x", 1), ("nm", "p")))
P2 = ("(pt :x 2)", S("pt", ("x", 2)))
# type -> ([(expression, value)], empty value)
VALS = {
    "int": ([("7", 7), ("-2", -2)], 0),
    "string": ([('"s"', "s"), ('"t u"', "t u")], ""),
    "boolean": ([("true", True)], False),
    "intlist": ([("(intlist 1 2)", L("intlist", 1, 2)), ("(intlist 3)", L("intlist", 3))], L("intlist")),
    "stringmap": ([('(stringmap :k "v")', M("stringmap", ("k", "v")))], M("stringmap")),
    "pt": ([P1, P2], S("pt")),
    "ptlist": ([("(ptlist %s %s)" % (P1[0], P2[0]), L("ptlist", P1[1], P2[1]))], L("ptlist")),
    "ptmap": ([("(ptmap :a %s)" % P1[0], M("ptmap", ("a", P1[1])))], M("ptmap")),
    "listlist": ([("(listlist (intlist 1) (intlist 2 3))", L("listlist", L("intlist", 1), L("intlist", 2, 3)))], L("listlist")),
    "any": ([("7", 7), ('"s"', "s")], None),
}
BASEPROPS = [("b1", "int"), ("b2", "stringlist")]
ITEMS = {
    "intlist": [("7", 7), ("-2", -2)], "ptlist": [P1, P2], "stringlist": [],
    "listlist": [("(intlist 1)", L("intlist", 1)), ("(intlist 2 3)", L("intlist", 2, 3))],
}
VALS["stringlist"] = ([('(stringlist "q")', L("stringlist", "q"))], L("stringlist"))


class Pack:
    def __init__(self, most):
        self.most, self.packages, self.expect, self.src, self.count, self.n = most, {}, {}, {}, most, 0

    def begin(self, decl):
        if self.count >= self.most:
            self.count = 0
            self.name = "probe/p%d" % len(self.packages)
            self.packages[self.name] = cc.HEAD % self.name + BASE
        self.packages[self.name] += decl
        self.decl = decl

    def use(self, typ, expr, value, f=None):
        self.n += 1
        self.count += 1
        f = f or "m%dz" % self.n
        line = "(func %s : %s %s)\n" % (f, typ, expr)
        self.packages[self.name] += line
        self.expect[(self.name, f)] = value
        self.src[(self.name, f)] = self.decl + line


def values(props, only=None):
    """{property: (expression, value)} for a subset of the properties"""
    for k in range(len(props) + 1):
        for sub in itertools.combinations(props, k):
            yield [(n, t, VALS[t][0][0]) for n, t in sub]


def record(name, given):
    return S(name, *[(n, v) for n, _, (_, v) in given])


def put(rec, name, n, v):
    d = dict(rec[2:])
    d[n] = v
    return S(name, *d.items())


def structs(pack):
    count = 0
    types = [t for t in VALS if t not in ("any", "stringlist")]
    shapes = [(t,) for t in types] + list(itertools.product(types if deep else types[:7], repeat=2))
    shapes += list(itertools.product(("int", "string", "pt") if not deep else ("int", "string", "pt", "intlist"), repeat=3))
    for shape in shapes:
        for trait in ((None, "base", "deepbase", "deepbase side") if len(shape) < 3 else (None,)):
            if trait and not deep and len(shape) == 2 and shape[0] != "int":
                continue
            count += 1
            name = "ts%d" % count
            own = [(("q%d", "q-%d", "is-q%d<-w")[(count + i) % 3] % i, t) for i, t in enumerate(shape)]
            props = own + (BASEPROPS if trait else []) + (
                [("b3", "string")] if trait and "deepbase" in trait else []) + (
                [("b4", "int")] if trait and "side" in trait else [])
            pack.begin("(type %s : struct%s :properties [%s])\n" % (
                name, " :traits [%s]" % trait if trait else "", " ".join("%s : %s" % p for p in own)))
            pack.use(name, "(%s)" % name, S(name))
            subsets = list(values(props if len(props) < 4 or deep else own))
            for given in subsets:
                for order in itertools.permutations(given) if len(given) < 3 or deep else [given, given[::-1]]:
                    if given:
                        pack.use(name, "(%s%s)" % (name, "".join(" :%s %s" % (n, e) for n, _, (e, _) in order)),
                                 record(name, given))
            full = [(n, t, VALS[t][0][-1]) for n, t in props]
            expr = "(%s%s)" % (name, "".join(" :%s %s" % (n, e) for n, _, (e, _) in full))
            for n, t, (e, v) in full:
                pack.use(t, "(:%s %s)" % (n, expr), v)
                pack.use(t, "(:%s (%s))" % (n, name), VALS[t][1])
                pack.use(t, "(any<-struct : %s %s :%s)" % (t, expr, n), v)
                pack.use(t, "(any<-struct : %s %s (same-key \":%s\"))" % (t, expr, n), v)
                pack.use(t, "(let [c6 : %s := %s] (any<-struct : %s c6 (same-key \":%s\")))" % (name, expr, t, n), v)
                pack.use(t, "(any<-struct : %s (%s) :%s)" % (t, name, n), VALS[t][1])
                first = VALS[t][0][0]
                # the last value given to a property counts
                pack.use(name, "(%s :%s %s :%s %s)" % (name, n, first[0], n, e), S(name, (n, v)))
                pack.use(name, "(copy %s :%s %s)" % (expr, n, first[0]), put(record(name, full), name, n, first[1]))
                pack.use(name, "(copy (%s) :%s %s)" % (name, n, e), S(name, (n, v)))
                pack.use(t, "(:%s (copy : %s %s :%s %s))" % (n, name, expr, n, first[0]), first[1])
                # the copied value itself is left alone
                pack.use(t, "(let [c1 : %s := %s c2 : %s := (copy c1 :%s %s)] (:%s c1))" % (name, expr, name, n, first[0], n), v)
            for one in (trait.split() + ["base"] if trait else ()):
                pack.use(one, expr, record(name, full))
                pack.use("int", "(let [c3 : %s := %s] (:b1 c3))" % (one, expr), VALS["int"][0][-1][1])
    # the property marked :default takes the bare values
    for k, (t, pos) in enumerate(itertools.product(("intlist", "ptlist", "stringlist", "listlist"), (0, 1, 2))):
        name = "td%d" % k
        own = [("o1", "float"), ("o2", "boolean"), ("d1", t)][2 - pos:]
        pack.begin("(type %s : struct :properties [%s])\n" % (name, " ".join(
            "%s : %s%s" % (n, u, " :... :default" if n == "d1" else "") for n, u in own)))
        items = ITEMS[t]
        for n in range(4 if deep else 3):
            # a bare string is read as the name of a property
            for chosen in itertools.product(items, repeat=n) if t != "stringlist" else ():
                v = L(t, *[i[1] for i in chosen])
                want = S(name, ("d1", v)) if n else S(name)
                bare = "".join(" " + i[0] for i in chosen)
                pack.use(name, "(%s%s)" % (name, bare), want)
                pack.use(t, "(:d1 (%s%s))" % (name, bare), v)
                if pos and n:
                    pack.use(name, "(%s :o2 true%s)" % (name, bare), put(want, name, "o2", True))
        e, v = VALS[t][0][0]
        pack.use(name, "(%s %s)" % (name, e), S(name, ("d1", v)))
        pack.use(name, "(%s :d1 %s)" % (name, e), S(name, ("d1", v)))
    for t in ("int", "string"):
        e, v = VALS[t][0][0]
        pack.begin("(type td-%s : struct :properties [d1 : %s :default])\n" % (t, t))
        pack.use(t, "(:d1 (td-%s %s))" % (t, e), v, "md%sz" % t)
    return count


def collections(pack):
    for k, (t, (vals, empty)) in enumerate((t, v) for t, v in VALS.items() if t not in ("any", "stringlist")):
        lname, mname = "tl%d" % k, "tm%d" % k
        pack.begin("(type %s : list :allowtypes [%s])\n(type %s : map :allowtypes [%s])\n" % (lname, t, mname, t))
        vals = vals if len(vals) > 1 else vals + [("(%s)" % t, empty)]
        lists = [x for n in range(4) for x in itertools.product(vals, repeat=n)]
        for items in lists:
            e = "(%s%s)" % (lname, "".join(" " + i[0] for i in items))
            v = L(lname, *[i[1] for i in items])
            pack.use(lname, e, v)
            for i in (1, 2, 4):
                pack.use(t, "(:%d %s)" % (i, e), items[i - 1][1] if i <= len(items) else empty)
            pack.use("int", "(length : int %s)" % e, len(items))
            if len(items) < 3:
                for other in lists[:4]:
                    o = "(%s%s)" % (lname, "".join(" " + i[0] for i in other))
                    w = L(lname, *[i[1] for i in items + other])
                    pack.use(lname, "(%s %s %s)" % (lname, e, o), w)
                    pack.use(lname, "(%s %s%s)" % (lname, e, "".join(" " + i[0] for i in other)), w)
                    if not other:
                        continue
                    pack.use(lname, "(copy %s%s)" % (e, "".join(" " + i[0] for i in other)), w)
                    pack.use(lname, "(let [c4 : %s := %s c5 : %s := (copy c4%s)] c4)" % (
                        lname, e, lname, "".join(" " + i[0] for i in other)), v)
                pack.use(lname, "(list<-list : %s %s (fn : %s [w1 : %s] w1))" % (lname, e, t, t), v)
        keys = ["a", "b-c", "d"]
        for n in range(3):
            for ks in itertools.permutations(keys, n):
                for items in itertools.product(vals, repeat=n):
                    e = "(%s%s)" % (mname, "".join(" :%s %s" % (q, i[0]) for q, i in zip(ks, items)))
                    v = M(mname, *[(q, i[1]) for q, i in zip(ks, items)])
                    pack.use(mname, e, v)
                    for q in keys:
                        pack.use(t, "(:%s %s)" % (q, e), dict(v[2:]).get(q, empty))
                    d = dict(v[2:])
                    d["d"] = vals[0][1]
                    pack.use(mname, "(copy %s :d %s)" % (e, vals[0][0]), M(mname, *d.items()))


def main():
    rep = vf.Report("R06", "model_checking")
    pack = Pack(330)
    nstruct = structs(pack)
    collections(pack)
    compared = progs.run(rep, "R06", pack.packages, pack.expect, label=lambda p, f: " ".join(pack.src[(p, f)].split()))
    for k in list(pack.src)[::max(1, len(pack.src) // 10)]:
        rep.sample({"source": pack.src[k], "value": str(pack.expect[k])})
    rep.coverage = {"states": len(pack.expect), "transitions": sum(t.count("(type ") for t in pack.packages.values()),
                    "traces_validated_against_impl": compared, "struct_types": nstruct}
    return rep.finish()


vf.main(main)
