"""R04: list construction, access and list functions."""
import itertools
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import funcheck
import vf
from rt import L, M

deep = not vf.quick()
N = 4 if deep else 3


def lists(typ, items, n):
    return [L(typ, *x) for k in range(n + 1) for x in itertools.product(items, repeat=k)]


SL = lists("stringlist", ["a", "b"], N) + [l for l in lists("stringlist", ["", "a"], 2) if "" in l]
IL = lists("intlist", [0, 1, 3], N)
POS = list(range(-N - 2, N + 3)) if deep else list(range(-2, N + 3))
T = funcheck.Table({
    "stringlist": SL, "intlist": IL, "int": POS, "string": ["", "a", "b", "ab"],
    "booleanlist": lists("booleanlist", [True, False], N),
    "anylist": [L("anylist", *x) for k in range(3) for x in itertools.product(
        [1, 0, "a", "", True, L("stringlist", "a"), M("stringmap", ("a", "x"))], repeat=k)],
})
SLL = ("stringlistlist", "stringlist")


def S_(*x):
    return L("stringlist", *x)


def I_(*x):
    return L("intlist", *x)


def at(l, i, empty):
    items = l[2:]
    return items[i - 1] if 1 <= i <= len(items) else empty


def sl(l, i, j):
    items = l[2:]
    if j < 0:
        j = len(items) + j
    j = min(j, len(items))
    if i < 1 or j < 1 or i > j:
        return L(l[1])
    return L(l[1], *items[i - 1:j])


# access
T.add("string l:stringlist i:int", "(any<-list : string l i)", lambda l, i: at(l, i, ""))
T.add("int l:intlist i:int", "(any<-list : int l i)", lambda l, i: at(l, i, 0))
for i in range(1, N + 2):
    T.add("string l:stringlist", "(:%d l)" % i, lambda l, i=i: at(l, i, ""))
    T.add("int l:intlist", "(:%d l)" % i, lambda l, i=i: at(l, i, 0))
T.add("string l:stringlist", "(first<-list : string l)", lambda l: at(l, 1, ""))
T.add("string l:stringlist", "(last<-list : string l)", lambda l: at(l, len(l) - 2, ""))
T.add("int l:intlist", "(first<-list : int l)", lambda l: at(l, 1, 0))
T.add("int l:intlist", "(last<-list : int l)", lambda l: at(l, len(l) - 2, 0))
T.add("int l:stringlist", "(length l)", lambda l: len(l) - 2)
T.add("int l:intlist", "(length l)", lambda l: len(l) - 2)
T.add("int l:anylist", "(length l)", lambda l: len(l) - 2)
T.add("boolean l:stringlist", "(is-empty l)", lambda l: len(l) == 2)
T.add("boolean l:stringlist", "(!-empty l)", lambda l: len(l) != 2)
# slices
T.add("stringlist l:stringlist i:int j:int", "(list<-list-start-end l i j)", sl)
T.add("intlist l:intlist i:int j:int", "(list<-list-start-end l i j)", sl)
T.add("stringlist l:stringlist i:int", "(list<-list-start l i)", lambda l, i: sl(l, i, len(l) - 2))
T.add("stringlist l:stringlist i:int", "(list<-list-end l i)", lambda l, i: sl(l, 1, i))
# search
T.add("boolean l:stringlist k:string", "(contains l k)", lambda l, k: k in l[2:])
T.add("boolean l:intlist k:int", "(contains l k)", lambda l, k: k in l[2:])
T.add("int l:stringlist k:string", "(int<-stringlist-find l k)",
      lambda l, k: list(l[2:]).index(k) + 1 if k in l[2:] else 0)
# map, filter, reduce
T.add("stringlist l:stringlist", '(list<-list : stringlist l (fn : string [x : string] (string x "1")))',
      lambda l: S_(*[x + "1" for x in l[2:]]))
T.add("intlist l:intlist", "(list<-list : intlist l (fn : int [x : int] (+ x 1)))",
      lambda l: I_(*[x + 1 for x in l[2:]]))
T.add("stringlist l:intlist", "(list<-list : stringlist l (fn : string [x : int] (string x)))",
      lambda l: S_(*[str(x) for x in l[2:]]))
T.add("intlist l:stringlist", "(list<-list : intlist l (fn : int [x : string] (length x)))",
      lambda l: I_(*[len(x) for x in l[2:]]))
T.add("intlist l:intlist n:int", "(list<-list : intlist l (fn : int [x : int] (* x n)))",
      lambda l, n: I_(*[x * n for x in l[2:]]))
T.add("stringlist l:stringlist", "(list<-list-intany : stringlist l (fn : string [p : int x : string] (string p x)))",
      lambda l: S_(*["%d%s" % (i + 1, x) for i, x in enumerate(l[2:])]))
T.add("stringlist l:stringlist", '(list<-list-filter : stringlist l (fn : string [x : string] (if (= x "a") x)))',
      lambda l: S_(*[x for x in l[2:] if x == "a"]), l=lists("stringlist", ["a", "b"], N))
T.add("intlist l:intlist", "(list<-list-filter : intlist l (fn : int [x : int] (if (> x 0) x)))",
      lambda l: I_(*[x for x in l[2:] if x > 0]))
T.add("stringlist l:stringlist", "(list<-list-flatten : stringlist l (fn : stringlist [x : string] (stringlist x x)))",
      lambda l: S_(*[y for x in l[2:] for y in (x, x)]), l=lists("stringlist", ["a", "b"], N))
T.add("int l:intlist n:int", "(any<-list-start-reduce : int l n (fn : int [r : int x : int] (+ (* 2 r) x)))",
      lambda l, n: red(lambda r, x: 2 * r + x, l[2:], n))
T.add("string l:stringlist", '(any<-list-start-reduce : string l "s" (fn : string [r : string x : string] (string r x)))',
      lambda l: "s" + "".join(l[2:]))
T.add("int l:intlist n:int", "(any<-list-start-reduce-next : int l n (fn : int [r : int x : int y : int] (+ (* 3 r) (- x y))))",
      lambda l, n: red(lambda r, p: 3 * r + p[0] - p[1], list(zip(l[2:], l[3:])), n))


def red(f, xs, r):
    for x in xs:
        r = f(r, x)
    return r


# joins and construction
T.add("stringlist a:stringlist b:stringlist", "(list<-list-join : stringlist (stringlistlist a b))",
      lambda a, b: S_(*a[2:], *b[2:]), a=lists("stringlist", ["a", "b"], 3), b=lists("stringlist", ["a", "b"], 3))
T.add("stringlist a:stringlist b:stringlist", "(stringlist a b)", lambda a, b: S_(*a[2:], *b[2:]))
T.add("stringlist a:string b:string c:string", "(stringlist a b c)", lambda *x: S_(*x))
T.add("stringlist a:string l:stringlist b:string", "(stringlist a l b)", lambda a, l, b: S_(a, *l[2:], b))
T.add("stringlist l:stringlist k:string", "(copy l k)", lambda l, k: S_(*l[2:], k))
T.add("stringlist l:stringlist k:string m:stringlist", '(copy l k "q" m)',
      lambda l, k, m: S_(*l[2:], k, "q", *m[2:]), k=["", "z"])
T.add("intlist a:int l:intlist b:int", "(intlist a l b)", lambda a, l, b: I_(a, *l[2:], b), a=[0, 5], b=[0, 7])
T.add("intlist l:intlist k:int", "(copy l k)", lambda l, k: I_(*l[2:], k))
T.add("stringlist a:anylist", "(stringlist a)",
      lambda a: S_(*[x for x in a[2:] if isinstance(x, str)]),
      a=[L("anylist"), L("anylist", "a"), L("anylist", "a", "b"), L("anylist", "b", "a", "b")])
T.add("booleanlist a:booleanlist b:booleanlist", "(booleanlist a b)", lambda a, b: L("booleanlist", *a[2:], *b[2:]))
# differences
T.add("stringlist a:stringlist b:stringlist", "(collection/- a b)",
      lambda a, b: S_(*[x for x in a[2:] if x not in b[2:]]), a=lists("stringlist", ["a", "b", "c"], N))
# loops
T.add("intlist i:int j:int", "(list<-for-end-loop : intlist i j (fn [c : int] (* c 2)))",
      lambda i, j: I_(*[c * 2 for c in (range(i, j + 1) if i <= j else range(i, j - 1, -1))]))
T.add("int i:int", "(any<-for-while-loop i (fn : boolean [c : int] (< c 5)) (fn : int [c : int] (+ c 2)))",
      lambda i: loop(i, lambda c: c < 5, 10000))
T.add("int i:int", "(any<-for-until-loop i (fn : boolean [c : int] (> c 5)) (fn : int [c : int] (+ c 2)))",
      lambda i: until(i, lambda c: c > 5), i=list(range(-3, 9)))
T.add("int i:int", "(any<-for-while-loop-max i (fn : boolean [c : int] (< c 5)) (fn : int [c : int] (+ c 2)) 9)",
      lambda i: loop(i, lambda c: c < 5, 10000), i=list(range(-3, 9)))
T.add("int i:int", "(any<-for-until-loop-max i (fn : boolean [c : int] (> c 5)) (fn : int [c : int] (+ c 2)) 9)",
      lambda i: until(i, lambda c: c > 5), i=list(range(-3, 9)))


def loop(c, cond, mx):
    while cond(c) and mx > 0:
        c += 2
        mx -= 1
    return c


def until(c, cond):
    """the loop body runs before the condition is first looked at"""
    while True:
        c += 2
        if cond(c):
            return c


# compositions
T.add("stringlist l:stringlist i:int", "(stringlist (list<-list-end : stringlist l i) (list<-list-start : stringlist l (+1 i)))",
      lambda l, i: l, i=[0] + list(range(1, N + 3)))
T.add("int l:stringlist m:stringlist", "(length (stringlist l m))", lambda l, m: len(l) + len(m) - 4)
T.add("int l:intlist", "(+ (list<-list : intlist l (fn : int [x : int] (+ x 1))))",
      lambda l: sum(l[2:]) + len(l) - 2)

if __name__ == "__main__":
    vf.main(lambda: funcheck.run(
        "R04", "R04", T,
        "every list function x every list over a two- or three-value alphabet up to the length bound x every position from before the first to beyond the last element, in three target languages",
        argtypes=["stringlistlist", "stringmap"]))
