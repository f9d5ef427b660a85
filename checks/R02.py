"""R02: integer and number arithmetic, ordering, equality and logic."""
import itertools
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import funcheck
import vf
from rt import L

deep = not vf.quick()
INTS = [-7, -2, -1, 0, 1, 2, 3, 10, 12] + ([100, 99, -12, -999] if deep else [])
NUMS = [-2, -0.5, 0, 0.25, 1, 2.5, 10] + ([-10.75, 3, 1.5, 100] if deep else [])
SMALL = [-2, -1, 0, 1, 2, 10] if deep else [-1, 0, 1, 2]
STRS = ["", "a", "b", "ab", "B", "a b", "10", "9"] + (["ba", "A", " ", "abc"] if deep else [])
BOOLS = [True, False]


def lists(typ, items, n):
    return [L(typ, *x) for k in range(n + 1) for x in itertools.product(items, repeat=k)]


T = funcheck.Table({
    "int": INTS, "number": NUMS, "float": [-1.5, 0.0, 0.5, 2.0, 2.5], "string": STRS,
    "boolean": BOOLS,
    "intlist": lists("intlist", [-1, 0, 2] + ([10] if deep else []), 4 if deep else 3),
    "numberlist": lists("numberlist", [-1, 0.5, 2], 3),
    "booleanlist": lists("booleanlist", BOOLS, 4 if deep else 3),
    "stringlist": lists("stringlist", ["", "a", "b"], 3),
})
OPS = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b}
CMP = {"<": lambda a, b: a < b, ">": lambda a, b: a > b, "<=": lambda a, b: a <= b,
       ">=": lambda a, b: a >= b, "=": lambda a, b: a == b}


def fold(op, xs):
    xs = list(xs)
    if op == "+":
        return sum(xs)
    if op == "*":
        r = 1
        for x in xs:
            r = r * x
        return r
    if len(xs) == 0:
        return 0
    if len(xs) == 1:
        return -xs[0]
    return xs[0] - sum(xs[1:])


def chain(op, xs):
    return all(CMP[op](a, b) for a, b in zip(xs, xs[1:]))


for op, fn in OPS.items():
    T.add("int a:int b:int", "(%s a b)" % op, fn)
    T.add("number a:number b:number", "(%s a b)" % op, fn)
    T.add("int a:int b:int c:int", "(%s a b c)" % op, lambda *x, op=op: fold(op, x),
          a=SMALL, b=SMALL, c=SMALL)
    T.add("number a:number b:number c:number", "(%s a b c)" % op, lambda *x, op=op: fold(op, x))
    T.add("int a:int b:int c:int d:int", "(%s a b c d)" % op, lambda *x, op=op: fold(op, x),
          a=[-1, 2, 3], b=[-1, 0, 2], c=[1, 2], d=[-3, 2])
    T.add("int l:intlist", "(%s l)" % op, lambda l, op=op: fold(op, l[2:]))
    T.add("number l:numberlist", "(%s l)" % op, lambda l, op=op: fold(op, l[2:]))
T.add("number a:number b:number", "(/ a b)", lambda a, b: a / b,
      a=[x for x in NUMS if x], b=[x for x in NUMS if x])
T.add("number a:int b:int", "(/ a b)", lambda a, b: a / b,
      a=[x for x in INTS if x], b=[x for x in INTS if x])
T.add("int a:int", "(+1 a)", lambda a: a + 1)
T.add("int a:int", "(-1 a)", lambda a: a - 1)
for op, fn in CMP.items():
    for t in ("int", "number", "string"):
        T.add("boolean a:%s b:%s" % (t, t), "(%s a b)" % op, fn)
    T.add("boolean a:int b:int c:int", "(%s a b c)" % op, lambda *x, op=op: chain(op, x),
          a=SMALL, b=SMALL, c=SMALL)
    T.add("boolean a:string b:string c:string", "(%s a b c)" % op, lambda *x, op=op: chain(op, x))
BIG = [16777215, 16777216, 16777217, -16777216, -16777217, 2147483647, -2147483647, 0]
for op in ("<", ">", "<=", ">=", "="):
    T.add("boolean a:int b:int", "(%s a b)" % op, CMP[op], a=BIG, b=BIG)
T.add("int a:int b:int", "(compare a b)", lambda a, b: (a > b) - (a < b), a=BIG, b=BIG)
T.add("boolean a:int b:int", "(!= a b)", lambda a, b: a != b)
T.add("boolean a:string b:string", "(!= a b)", lambda a, b: a != b)
T.add("boolean a:boolean b:boolean", "(= a b)", lambda a, b: a == b)
T.add("boolean a:boolean b:boolean", "(!= a b)", lambda a, b: a != b)
for t in ("int", "string", "number"):
    T.add("int a:%s b:%s" % (t, t), "(compare a b)", lambda a, b: (a > b) - (a < b))
T.add("boolean a:boolean b:boolean", "(and a b)", lambda a, b: a and b)
T.add("boolean a:boolean b:boolean", "(or a b)", lambda a, b: a or b)
for n in (3, 4):
    names = "abcd"[:n]
    sig = "boolean " + " ".join("%s:boolean" % x for x in names)
    T.add(sig, "(and %s)" % " ".join(names), lambda *x: all(x))
    T.add(sig, "(or %s)" % " ".join(names), lambda *x: any(x))
T.add("boolean l:booleanlist", "(and l)", lambda l: all(l[2:]))
T.add("boolean l:booleanlist", "(or l)", lambda l: any(l[2:]))
T.add("boolean a:boolean", "(! a)", lambda a: not a)
# nested uses: precedence is structure only
for o1, o2 in itertools.product(OPS, repeat=2):
    T.add("int a:int b:int c:int", "(%s (%s a b) c)" % (o1, o2),
          lambda a, b, c, f=OPS[o1], g=OPS[o2]: f(g(a, b), c), a=SMALL, b=SMALL, c=SMALL)
    T.add("int a:int b:int c:int", "(%s a (%s b c))" % (o1, o2),
          lambda a, b, c, f=OPS[o1], g=OPS[o2]: f(a, g(b, c)), a=SMALL, b=SMALL, c=SMALL)
for op, fn in CMP.items():
    T.add("boolean a:int b:int c:int", "(%s (+ a b) (- b c))" % op,
          lambda a, b, c, f=fn: f(a + b, b - c), a=SMALL, b=SMALL, c=SMALL)

if __name__ == "__main__":
    vf.main(lambda: funcheck.run(
        "R02", "R02", T,
        "every operator overload (two arguments, three and four written arguments, one list argument, nested) x every tuple of its finite argument domain, in three target languages"))
