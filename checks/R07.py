"""R07: constants.

Enumerated: every type x defining expression x place of use; every dependency
graph over a few named constants x declaration order x kind of value; and every
definition used from another package.  Run in three targets and compared with
the value of the defining expression."""
import itertools
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import cc
import progs
import rt
import vf
from rt import L, M, S

deep = not vf.quick()
PRE = """(type pt : struct :properties [x : int name : string nums : intlist])
(type ptlist : list :allowtypes [pt])
(type ptmap : map :allowtypes [pt])
(type root : struct :properties [r1 : int])
(type base : struct :traits [root] :properties [b1 : string b2 : intlist])
(type kid : struct :traits [base] :properties [c1 : int])
(type side : struct :properties [d1 : boolean])
(type both : struct :traits [base side] :properties [c2 : stringmap c3 : pt])
(func twice : int [v1 : int] (* v1 2))
(func shout : string [v2 : string] (string v2 "!"))
(func negate : boolean [v3 : boolean] (! v3))
(func mk-nums : intlist [v4 : int] (intlist v4 (+ v4 1)))
(func mk-map : intmap [v5 : int] (intmap :a v5 :b (+ v5 1)))
(func mk-pt : pt [v6 : int] (pt :x v6 :name "made" :nums (intlist v6)))
(func same-int : int [w1 : int] w1)
(func same-string : string [w2 : string] w2)
(func same-boolean : boolean [w3 : boolean] w3)
(func same-intlist : intlist [w4 : intlist] w4)
(func same-stringlist : stringlist [w5 : stringlist] w5)
(func same-intmap : intmap [w6 : intmap] w6)
(func same-stringmap : stringmap [w7 : stringmap] w7)
(func same-pt : pt [w8 : pt] w8)
(func same-ptlist : ptlist [w9 : ptlist] w9)
(func same-ptmap : ptmap [w10 : ptmap] w10)
(func same-kid : kid [w11 : kid] w11)
(func same-both : both [w12 : both] w12)

"""
P3 = S("pt", ("x", 3), ("name", "n"))
P4 = S("pt", ("x", 4))
# type -> [(defining expression, value)]
DEFS = {
    "int": [("7", 7), ("0", 0), ("-5", -5), ("2147483647", 2147483647), ("(+ 1 2)", 3), ("(twice 4)", 8),
            ("(if : int (then false 1) (else 2))", 2), ("(int 6)", 6), ("(:2 (intlist 4 5))", 5), ("", 0),
            ("(let [q1 : int := 3] (* q1 q1))", 9), ("(:x (pt :x 3))", 3), ("(- (* 2 3) 1)", 5)],
    "string": [('"hi"', "hi"), ('""', ""), ('"a b"', "a b"), ('"7"', "7"), ('"true"', "true"), ('(string "a" "b")', "ab"),
               ('(shout "x")', "x!"), ('"two\\nlines"', "two\nlines"), ('"q\\"q"', 'q"q'), ("", ""),
               ('(let [q2 : string := "z"] (string q2 q2))', "zz"), ('(:1 (stringlist "f" "g"))', "f"),
               ('":k"', ":k"), ('(if : string (then true "yes") (else "no"))', "yes"), ("(string 5)", "5")],
    "boolean": [("true", True), ("false", False), ("(and true (< 1 2))", True), ("(! true)", False),
                ("(negate false)", True), ("(or false false)", False), ("(= 1 1)", True), ("(boolean true)", True),
                ("", False)],
    "intlist": [("(intlist 1 2)", L("intlist", 1, 2)), ("(intlist)", L("intlist")), ("(mk-nums 4)", L("intlist", 4, 5)),
                ("(intlist (intlist 1) 2)", L("intlist", 1, 2)), ("(intlist (+ 1 1) (twice 2))", L("intlist", 2, 4)),
                ("(list<-list : intlist (intlist 1 2) (fn : int [u1 : int] (+ u1 1)))", L("intlist", 2, 3)),
                ("", L("intlist"))],
    "stringlist": [('(stringlist "a" "b")', L("stringlist", "a", "b")), ("(stringlist)", L("stringlist")),
                   ('(stringlist (shout "a") "")', L("stringlist", "a!", "")), ("", L("stringlist"))],
    "intmap": [("(intmap :a 1 :b 2)", M("intmap", ("a", 1), ("b", 2))), ("(intmap)", M("intmap")),
               ("(mk-map 4)", M("intmap", ("a", 4), ("b", 5))), ("(intmap :b 2 :a (+ 1 2))", M("intmap", ("b", 2), ("a", 3))),
               ("", M("intmap"))],
    "stringmap": [('(stringmap :a "x" :b "y")', M("stringmap", ("a", "x"), ("b", "y"))),
                  ('(stringmap :k (shout "x"))', M("stringmap", ("k", "x!"))), ("", M("stringmap"))],
    "pt": [('(pt :x 3 :name "n")', P3), ("(pt)", S("pt")), ("(mk-pt 4)", S("pt", ("x", 4), ("name", "made"), ("nums", L("intlist", 4)))),
           ("(pt :nums (intlist 1 2) :x (+ 1 1))", S("pt", ("x", 2), ("nums", L("intlist", 1, 2)))), ("", S("pt"))],
    "kid": [("(kid :r1 1 :b1 \"b\" :b2 (intlist 5) :c1 2)", S("kid", ("r1", 1), ("b1", "b"), ("b2", L("intlist", 5)), ("c1", 2))),
            ("(kid :r1 4)", S("kid", ("r1", 4))), ("(kid :b1 \"w\")", S("kid", ("b1", "w"))), ("(kid :c1 7)", S("kid", ("c1", 7))),
            ("(copy (kid :r1 4 :c1 1) :b1 \"z\")", S("kid", ("r1", 4), ("b1", "z"), ("c1", 1))), ("", S("kid"))],
    "both": [("(both :r1 1 :d1 true :c2 (stringmap :a \"x\") :c3 (pt :x 3 :name \"n\"))",
              S("both", ("r1", 1), ("d1", True), ("c2", M("stringmap", ("a", "x"))), ("c3", P3))),
             ("(both :b2 (intlist 1 2))", S("both", ("b2", L("intlist", 1, 2)))), ("(both :d1 true)", S("both", ("d1", True))),
             ("", S("both"))],
    "ptlist": [('(ptlist (pt :x 3 :name "n") (pt :x 4))', L("ptlist", P3, P4)), ("(ptlist)", L("ptlist")), ("", L("ptlist"))],
    "ptmap": [('(ptmap :p (pt :x 3 :name "n") :q (pt :x 4))', M("ptmap", ("p", P3), ("q", P4))), ("", M("ptmap"))],
}
LISTOF = {"int": "intlist", "string": "stringlist", "pt": "ptlist"}
MAPOF = {"int": "intmap", "string": "stringmap", "pt": "ptmap"}


def uses(t, v):
    """(label, type, expression over @, value)"""
    yield "body", t, "@", v
    yield "call", t, "(same-%s @)" % t, v
    yield "let", t, "(let [l1 : %s := @] l1)" % t, v
    yield "then", t, "(if : %s (then true @) (else (%s)))" % (t, t), v
    yield "else", t, "(if : %s (then false (%s)) (else @))" % (t, t), v
    if t in LISTOF:
        yield "item", LISTOF[t], "(%s @ @)" % LISTOF[t], L(LISTOF[t], v, v)
        yield "lambda", LISTOF[t], "(list<-list : %s (%s (%s) @) (fn : %s [l2 : %s] @))" % (
            LISTOF[t], LISTOF[t], t, t, t), L(LISTOF[t], v, v)
        yield "value", MAPOF[t], "(%s :k @)" % MAPOF[t], M(MAPOF[t], ("k", v))
        yield "list", t, "(:2 (%s (%s) @))" % (LISTOF[t], t), v
    if t == "int":
        yield "sum", t, "(+ @ 1)", v + 1 if v < 2 ** 31 - 1 else None
        yield "prop", t, "(:x (pt :x @))", v
        yield "equal", "boolean", "(= @ @)", True
    if t == "string":
        yield "join", t, '(string @ "+" @)', v + "+" + v
        yield "prop", t, "(:name (pt :name @))", v
    if t == "boolean":
        yield "not", t, "(! @)", not v
        yield "cond", "int", "(if : int (then @ 1) (else 2))", 1 if v else 2
    if isinstance(v, L):
        e = t[:-4]
        empty = {"int": 0, "string": "", "pt": S("pt")}[e]
        items = v[2:]
        for i in (1, 2, 3):
            yield "index%d" % i, e, "(:%d @)" % i, items[i - 1] if i <= len(items) else empty
        yield "length", "int", "(length : int @)", len(items)
        yield "join", t, "(%s @ @)" % t, L(t, *(items + items))
        yield "each", t, "(list<-list : %s @ (fn : %s [l3 : %s] l3))" % (t, e, e), v
    if isinstance(v, M):
        e = t[:-3]
        empty = {"int": 0, "string": "", "pt": S("pt")}[e]
        for k in ("a", "k", "p"):
            yield "key" + k, e, "(:%s @)" % k, dict(v[2:]).get(k, empty)
    if t in ("kid", "both"):
        d = dict(v[2:])
        yield "r1", "int", "(:r1 @)", d.get("r1", 0)
        yield "b1", "string", "(:b1 @)", d.get("b1", "")
        yield "b2", "intlist", "(:b2 @)", d.get("b2", L("intlist"))
        if t == "kid":
            yield "c1", "int", "(:c1 @)", d.get("c1", 0)
        else:
            yield "d1", "boolean", "(:d1 @)", d.get("d1", False)
            yield "c3", "pt", "(:c3 @)", d.get("c3", S("pt"))
    if t == "pt":
        d = dict(v[2:])
        yield "x", "int", "(:x @)", d.get("x", 0)
        yield "name", "string", "(:name @)", d.get("name", "")
        yield "nums", "intlist", "(:nums @)", d.get("nums", L("intlist"))
        yield "copy", "pt", "(copy @ :x 8)", S("pt", *[(k, w) for k, w in v[2:] if k != "x"] + [("x", 8)])


def definition(name, t, e):
    return "(const %s : %s%s)\n" % (name, t, " " + e if e else "")


def dags(n):
    """every acyclic reference graph over n named constants"""
    pairs = [(i, j) for i in range(n) for j in range(n) if i != j]
    for bits in itertools.product((0, 1), repeat=len(pairs)):
        refs = {i: [j for (a, j), b in zip(pairs, bits) if b and a == i] for i in range(n)}
        left = set(range(n))
        while left:
            free = [i for i in left if not any(j in left for j in refs[i])]
            if not free:
                break
            left -= set(free)
        if not left:
            yield refs


# kind -> (type, own text, reference text, value(own number, referenced values))
def isum(k, rs):
    return k + sum(rs)


KINDS = {
    "int": ("int", lambda k, rs: "(+ %d 0%s)" % (k, "".join(" " + r for r in rs)) if rs else str(k), isum),
    "string": ("string", lambda k, rs: '(string "%d"%s)' % (k, "".join(" " + r for r in rs)) if rs else '"%d"' % k,
               lambda k, rs: str(k) + "".join(rs)),
    "intlist": ("intlist", lambda k, rs: "(intlist %d%s)" % (k, "".join(" " + r for r in rs)),
                lambda k, rs: L("intlist", k, *[x for r in rs for x in r[2:]])),
    "pt": ("pt", lambda k, rs: "(pt :x %s)" % ("(+ %d 0%s)" % (k, "".join(" (:x %s)" % r for r in rs)) if rs else k),
           lambda k, rs: S("pt", ("x", k + sum(dict(r[2:])["x"] for r in rs)))),
    "alias": ("intlist", lambda k, rs: rs[0] if len(rs) == 1 else "(intlist %d%s)" % (k, "".join(" " + r for r in rs)),
              lambda k, rs: rs[0] if len(rs) == 1 else L("intlist", k, *[x for r in rs for x in r[2:]])),
}


def graphs():
    """-> (label, {name: (type, text, value)}, declaration order)"""
    for kind, (t, text, val) in KINDS.items():
        for n in (2, 3) + ((4,) if deep else ()):
            orders = list(itertools.permutations(range(n))) if n < 4 else [tuple(range(n)), tuple(reversed(range(n)))]
            if n == 3 and not deep:
                orders = [(0, 1, 2), (2, 1, 0), (1, 2, 0)]
            for refs in dags(n):
                if n == 4 and max(len(r) for r in refs.values()) > 2:
                    continue
                values = {}

                def value(i):
                    if i not in values:
                        values[i] = val(10 ** i, [value(j) for j in refs[i]])
                    return values[i]
                for order in orders:
                    yield kind, t, [(i, refs[i], value(i)) for i in order], text


class Pack:
    def __init__(self, most):
        self.most = most
        self.packages = {}
        self.expect = {}
        self.src = {}
        self.count = most

    def room(self, n):
        if self.count + n > self.most:
            self.count = 0
            self.name = "probe/p%d" % len(self.packages)
            self.packages[self.name] = cc.HEAD % self.name + PRE
        self.count += n

    def add(self, text, funcs):
        self.room(len(funcs) + 1)
        self.packages[self.name] += text
        for f, t, e, v in funcs:
            line = "(func %s : %s %s)\n" % (f, t, e)
            self.packages[self.name] += line
            self.expect[(self.name, f)] = v
            self.src[(self.name, f)] = text + line


def main():
    rep = vf.Report("R07", "model_checking")
    pack = Pack(450)
    n = itertools.count(1)
    nuse = 0
    for t, defs in DEFS.items():
        for e, v in defs:
            for before in (True, False):          # constant declared before or after its use
                k = next(n)
                name = "k%d-c" % k
                funcs = [("m%dx%dz" % (k, i), ut, ue.replace("@", name), uv) for i, (_, ut, ue, uv) in enumerate(uses(t, v))
                         if uv is not None]
                nuse += len(funcs)
                if before:
                    pack.add(definition(name, t, e), funcs)
                else:
                    pack.add("", funcs)
                    pack.packages[pack.name] += definition(name, t, e)
                    for f in funcs:
                        pack.src[(pack.name, f[0])] += definition(name, t, e)
    ngraph = 0
    for kind, t, nodes, text in graphs():
        k = next(n)
        names = ["%s%d-%s" % ("abcd"[i], k, "qwer"[i]) for i in range(4)]
        decl = "".join("(const %s : %s %s)\n" % (names[i], t, text(10 ** i, [names[j] for j in refs])) for i, refs, _ in nodes)
        pack.add(decl, [("g%dx%dz" % (k, i), t, names[i], v) for i, _, v in nodes])
        ngraph += 1
    # constants of another package, by qualified and plain name, and constants defined from them
    for rnd in range(2):
        lib = "probe/%s" % ("alib", "zlib")[rnd]
        user = "probe/muse%d" % rnd
        libtext = cc.HEAD % lib + PRE.split("(func same")[0]
        usetext = (cc.HEAD % user).replace("(lib collection", "(lib lb :path %s)\n  (lib collection" % lib) + "\n"
        k = 0
        for t, defs in DEFS.items():
            for e, v in defs:
                if t.startswith("pt") or t in ("kid", "both"):
                    continue
                k += 1
                name = "e%d-%d" % (rnd, k)
                libtext += definition(name, t, e)
                for form, ref in (("q", "lb/" + name), ("u", name)):
                    d = "(const d%s%d : %s %s)\n" % (form, k, t, ref)
                    usetext += d
                    for kind, body in (("f", ref), ("g", "d%s%d" % (form, k))):
                        f = "m%s%s%dz" % (form, kind, k)
                        line = "(func %s : %s %s)\n" % (f, t, body)
                        usetext += line
                        pack.expect[(user, f)] = v
                        pack.src[(user, f)] = definition(lib + "/" + name, t, e) + d + line
        pack.packages[lib] = libtext
        pack.packages[user] = usetext
    compared = progs.run(rep, "R07", pack.packages, pack.expect, label=lambda p, f: pack.src[(p, f)].strip())
    for k in list(pack.src)[::max(1, len(pack.src) // 10)]:
        rep.sample({"source": pack.src[k], "value": str(pack.expect[k])})
    consts = sum(t.count("(const ") for t in pack.packages.values())
    rep.coverage = {"states": len(pack.expect), "transitions": consts, "traces_validated_against_impl": compared,
                    "definitions": sum(len(d) for d in DEFS.values()), "uses": nuse, "reference_graphs": ngraph}
    rep.assumptions = ["float and decimal constants are not part of the claim"]
    return rep.finish()


vf.main(main)
