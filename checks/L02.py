"""L02: names of a program's own things.

Enumerated: names built of words joined by the characters names may hold, in every
role a name can have (function, overload, argument, local variable, function
literal argument, type, property, constant, map key), alone and in pairs in one
scope, with and without an internal name; run in three targets."""
import itertools
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import cc
import progs
import rt
import vf
from rt import L, M, S

deep = not vf.quick()
JOIN = ["-", "<-", "->", "<", ">"]
WORDS = ["aa", "b1", "Cd"]


def names():
    out = list(WORDS) + ["q", "is-it?", "it?", "aa?b1", "x2y3", "longer-name-of-many-words", "to-int<-any-list", "UP", "uP-Down"]
    for j in JOIN:
        out += [a + j + b for a, b in itertools.product(WORDS, repeat=2)]
    for j, k in itertools.product(JOIN, repeat=2):
        out.append("aa" + j + "b1" + k + "cc")
        if deep:
            out += [a + j + b + k + c for a, b, c in itertools.product(WORDS[:2], repeat=3)]
    return list(dict.fromkeys(out))


SYMBOLS = ["+x", "x*", "a*b", "do!", "a=b", "a%", "a&b", "^up", "a|b", "~", "@at", "#h", "$d", "x+y-z", "'q", "a,b", "a;b", "<=>"]

# role -> [(declarations, result type, expression, value)]; N is the name, # a number of its own
ROLES = {
    "function": [("(func N : int [] 1)", "int", "(+ (N) 1)", 2)],
    "function with arguments": [("(func N : string [y1 : string y2 : int] (string y1 y2))", "string", '(N "k" 3)', "k3")],
    "overload": [("(func N : string [y1 : int] \"i\")\n(func N : string [y1 : string] \"s\")", "string", '(string (N 1) (N "z"))', "is")],
    "function as value": [("(func N : int [y1 : int] (+ y1 1))", "intlist", "(list<-list : intlist (intlist 1 2) N)", L("intlist", 2, 3))],
    "recursion": [("(func N : int [y1 : int] (if : int (then (< y1 1) 0) (else (+ y1 (N (- y1 1))))))", "int", "(N 3)", 6)],
    "argument": [("(func g# : int [N : int] (+ N 1))", "int", "(g# 1)", 2)],
    "second argument": [("(func g# : string [y0 : string N : int] (string y0 N))", "string", '(g# "k" 1)', "k1")],
    "variadic argument": [("(func g# : int [N : intlist :...] (+ N))", "int", "(g# 1 2)", 3),
                          ("", "int", "(g# 5)", 5)],
    "argument in a function literal": [("(func g# : intlist [N : int] (list<-list : intlist (intlist 1 2) (fn : int [e1 : int] (+ e1 N))))",
                                        "intlist", "(g# 3)", L("intlist", 4, 5))],
    "struct argument": [("(func g# : int [N : pair] (+ (:x N) (:x N)))", "int", "(g# (pair :x 4))", 8)],
    "variable": [("", "int", "(let [N : int := 2] (+ N N))", 4), ("", "int", "(let [y1 : int := 2 N : int := (+ y1 1) y2 : int := (+ N 1)] (+ y1 N y2))", 9)],
    "captured variable": [("", "intlist", "(let [N : int := 4] (list<-list : intlist (intlist 1 2) (fn : int [e1 : int] (+ e1 N))))", L("intlist", 5, 6))],
    "function literal argument": [("", "intlist", "(list<-list : intlist (intlist 1 2) (fn : int [N : int] (+ N 1)))", L("intlist", 2, 3)),
                                  ("", "int", "(any<-list-start-reduce : int (intlist 1 2) 3 (fn : int [N : int e1 : int] (+ N e1)))", 6),
                                  ("", "intlist", "(list<-list : intlist (intlist 1 2) (fn : int [N : int] (let : int [y1 : int := N] (+ N y1))))", L("intlist", 2, 4))],
    "struct type": [("(type N : struct :properties [x : int])\n(type z#list : list :allowtypes [N])\n(type z#map : map :allowtypes [N])",
                     "int", "(:x (N :x 2))", 2),
                    ("", "int", "(:x (any<-list : N (z#list (N :x 1) (N :x 5)) 2))", 5), ("", "int", "(:x (:k (z#map :k (N :x 6))))", 6),
                    ("(func g# : N [y1 : N] (copy y1 :x 9))", "int", "(:x (g# (N :x 1)))", 9)],
    "trait": [("(type N : struct :properties [x : int])\n(type k# : struct :traits [N] :properties [y : int])\n(func g# : int [y1 : N] (:x y1))",
               "int", "(+ (:x (k# :x 2 :y 3)) (g# (k# :x 5)))", 7)],
    "list type": [("(type N : list :allowtypes [int])", "N", "(N 1 2)", ("L", 1, 2)), ("", "int", "(any<-list : int (N 4 5) 2)", 5)],
    "map type": [("(type N : map :allowtypes [int])", "N", "(N :k 2)", ("M", ("k", 2))), ("", "int", "(:k (N :k 3))", 3)],
    "property": [("(type z# : struct :properties [N : int])", "int", "(:N (z# :N 2))", 2), ("", "z#", "(z# :N 4)", ("S",)),
                 ("", "int", "(:N (copy : z# (z# :N 2) :N 7))", 7), ("", "int", "(any<-struct : int (z# :N 3) :N)", 3)],
    "second property": [("(type z# : struct :properties [o1 : string N : intlist])", "intlist", '(:N (z# :o1 "t" :N (intlist 1 2)))', L("intlist", 1, 2))],
    "constant": [("(const N : int 2)", "int", "(+ N 1)", 3), ("(func g# : int [] N)", "int", "(g#)", 2)],
    "struct constant": [("(const N : pair (pair :x 3))", "int", "(:x N)", 3)],
    "map key": [("", "intmap", "(intmap :N 1)", ("K", 1)), ("", "int", "(:N (intmap :N 6))", 6), ("", "int", "(any<-map : int (intmap :N 5) :N)", 5)],
    "tested function": [("(func N : int [y1 : int] (+ y1 1)\n :test (test 2 (N 1))\n :doc \"of N\")", "int", "(N 4)", 5)],
}
ALIAS = {
    "function": [('(func N : int [] 1 :alias "al#")', "int", "(+ (N) 1)", 2)],
    "overload": [('(func N : string [y1 : int] "i" :alias "al#")\n(func N : string [y1 : string] "s" :alias "al#")', "string", '(string (N 1) (N "z"))', "is")],
    "function as value": [('(func N : int [y1 : int] (+ y1 1) :alias "al#")', "intlist", "(list<-list : intlist (intlist 1 2) N)", L("intlist", 2, 3))],
    "struct type": [('(type N : struct :properties [x : int] :alias "al#")', "int", "(:x (N :x 2))", 2)],
    "list type": [('(type N : list :allowtypes [int] :alias "al#")', "int", "(any<-list : int (N 4 5) 2)", 5)],
}
PAIRS = {
    "arguments": ("(func g# : string [N1 : int N2 : int] (string N1 \"-\" N2 \"-\" N1))", "string", "(g# 1 2)", "1-2-1"),
    "variables": ("", "string", "(let [N1 : int := 1 N2 : int := (+ N1 1)] (string N1 \"-\" N2))", "1-2"),
    "properties": ("(type z# : struct :properties [N1 : int N2 : int])", "string", "(let [y1 : z# := (z# :N2 2 :N1 1)] (string (:N1 y1) \"-\" (:N2 y1)))", "1-2"),
    "keys": ("", "string", "(let [y1 : intmap := (intmap :N1 1 :N2 2)] (string (:N1 y1) \"-\" (:N2 y1)))", "1-2"),
    "functions": ("(func N1# : int [] 1)\n(func N2# : int [] 2)", "string", "(string (N1#) \"-\" (N2#))", "1-2"),
    "constants": ("(const N1# : int 1)\n(const N2# : int 2)", "string", "(string (+ N1# 0) \"-\" (+ N2# 0))", "1-2"),
    "literal arguments": ("", "int", "(any<-list-start-reduce : int (intlist 1 2) 3 (fn : int [N1 : int N2 : int] (+ N1 N1 N2)))", 16),
}
BASE = "(type pair : struct :properties [x : int])\n"


class Pack:
    def __init__(self, most):
        self.most, self.packages, self.expect, self.src, self.uses, self.n = most, {}, {}, {}, {}, 0
        self.count = most

    def add(self, tag, items, name, sub):
        """declarations of one use stay in one package; names are unique per package"""
        key = [t for t in tag if t != ""]
        if self.count >= self.most or name in self.uses.get(self.cur, set()):
            for p, used in self.uses.items():
                if name not in used and sum(1 for q in self.expect if q[0] == p) < self.most:
                    self.cur = p
                    break
            else:
                self.cur = "probe/p%d" % len(self.packages)
                self.packages[self.cur] = cc.HEAD % self.cur + BASE
                self.uses[self.cur] = set()
            self.count = sum(1 for q in self.expect if q[0] == self.cur)
        if name is not None:
            self.uses[self.cur].add(name)
        self.n += 1
        text = ""
        for decl, t, e, v in items:
            f = "t%d" % len(self.expect)
            d, t2, e2 = (sub(x).replace("#", str(self.n)) for x in (decl, t, e))
            text += (d + "\n" if d else "") + "(func %s : %s [] %s)\n" % (f, t2, e2)
            self.expect[(self.cur, f)] = (v, sub, t2)
            self.src[(self.cur, f)] = "%s: %s %s" % (key, d, e2)
            self.count += 1
        self.packages[self.cur] += text

    cur = None


def value(v, sub, t):
    if isinstance(v, tuple) and v and v[0] in ("L", "M", "S", "K") and isinstance(v, tuple) and type(v) is tuple and t not in ("intlist",):
        if v[0] == "L":
            return L(t, *v[1:])
        if v[0] == "M":
            return M(t, *v[1:])
        if v[0] == "S":
            return S(t, (sub("N"), 4))
        return M(t, (sub("N"), v[1]))
    return v


def main():
    rep = vf.Report("L02", "model_checking")
    pack = Pack(260)
    every = names()
    for role, items in ROLES.items():
        for n in every:
            pack.add((role, n), items, n, lambda x, n=n: replace(x, n))
    for role, items in ALIAS.items():
        for n in SYMBOLS + ["aa-b1", "x->y", "it?"]:
            pack.add(("alias " + role, n), items, n, lambda x, n=n: replace(x, n))
    few = ["aa", "aa-b1", "aa<-b1", "aa->b1", "aa<b1", "aa>b1", "aa?", "b1-aa", "Aa", "aA", "aa1", "aa-1"]
    for role, item in PAIRS.items():
        for a, b in itertools.permutations(few, 2):
            pack.add((role, a, b), [item], None, lambda x, a=a, b=b: x.replace("N1#", a + "-#").replace("N2#", b + "-#").replace("N1", a).replace("N2", b))
    expect = {k: value(*v) for k, v in pack.expect.items()}
    compared = progs.run(rep, "L02", pack.packages, expect, label=lambda p, f: " ".join(pack.src[(p, f)].split()))
    for k in list(pack.src)[::max(1, len(pack.src) // 12)]:
        rep.sample({"source": pack.src[k], "value": str(expect[k])})
    rep.coverage = {"states": len(expect), "transitions": len(every) * len(ROLES), "traces_validated_against_impl": compared,
                    "names": len(every), "roles": len(ROLES) + len(PAIRS)}
    rep.assumptions = ["names that are reserved words of a target language, or that become one identifier, are not part of the claim"]
    return rep.finish()


def replace(text, name):
    """N as a whole word"""
    out = []
    for i, ch in enumerate(text):
        if ch == "N" and not (i and text[i - 1].isalnum()) and not (i + 1 < len(text) and text[i + 1].isalnum()):
            out.append(name)
        else:
            out.append(ch)
    return "".join(out)


vf.main(main)
