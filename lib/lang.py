"""A small typed expression language: every production of it is rendered as
vxlisp text and evaluated by a direct interpreter (the reference model).

Expressions are enumerated by nesting: `level(n)` gives every chain of n
productions nested in each other in every type-correct argument position, the
other positions filled with variables.
"""
import rt

VARS = {"int": "a", "boolean": "p", "string": "s", "intlist": "l", "stringlist": "t",
        "intmap": "m", "pt": "q"}
ALT = {"int": "b"}


class Node:
    __slots__ = ("prod", "kids")

    def __init__(self, prod, kids):
        self.prod = prod
        self.kids = kids

    def render(self, depth=0):
        ks = [k.render(depth + 1) if isinstance(k, Node) else k for k in self.kids]
        txt = self.prod.text.replace("@", "nuvw"[depth])
        for i, k in enumerate(ks):
            txt = txt.replace("$%d" % i, k)
        return txt

    def eval(self, env, depth=0):
        def kid(i):
            k = self.kids[i]
            return k.eval(env, depth + 1) if isinstance(k, Node) else env[k]
        return self.prod.fn(kid, env)

    def name(self):
        out = self.prod.name
        for i, k in enumerate(self.kids):
            if isinstance(k, Node):
                out += ">%d:%s" % (i, k.name())
        return out


class Prod:
    def __init__(self, name, typ, kids, text, fn):
        self.name, self.type, self.kids, self.text, self.fn = name, typ, kids.split(), text, fn


PRODS = []


def P(name, typ, kids, text, fn):
    PRODS.append(Prod(name, typ, kids, text, fn))


def IL(*x):
    return rt.L("intlist", *x)


def SL(*x):
    return rt.L("stringlist", *x)


def at(l, i, empty):
    return l[i + 1] if 1 <= i <= len(l) - 2 else empty


def isum(l):
    return sum(l[2:])


PRELUDE = """(type pt : struct
 :properties
  [num : int
   txt : string
   nums : intlist])

(func twice : int
 [x : int]
 (* 2 x))

(func pick : int
 [c : boolean
  x : int
  y : int]
 (if : int c x y))

(func fact : int
 [n : int]
 (if : int
  (then (< n 2) 1)
  (else (* n (fact (- n 1))))))

(func order : int
 [w : int
  x : int
  y : int
  z : int]
 (+ w (* 10 x) (* 100 y) (* 1000 z)))

(func total : int
 [ns : intlist :...]
 (+ ns))

(func label : string
 [x : int
  y : string]
 (string "<" x y ">"))
"""
POSTLUDE = """
(func later : int
 [x : int]
 (+ x 100))
"""


def fact(n):
    return 1 if n < 2 else n * fact(n - 1)


def pt(n=0, s="", l=None):
    return rt.S("probe/h/pt", ("num", n), ("txt", s), ("nums", l if l is not None else IL()))


def prop(q, name):
    return dict(q[2:])[name]


# int
P("+", "int", "int int", "(+ $0 $1)", lambda k, e: k(0) + k(1))
P("-", "int", "int int", "(- $0 $1)", lambda k, e: k(0) - k(1))
P("*", "int", "int int", "(* $0 $1)", lambda k, e: k(0) * k(1))
P("+1", "int", "int", "(+1 $0)", lambda k, e: k(0) + 1)
P("+3", "int", "int int int", "(+ $0 $1 $2)", lambda k, e: k(0) + k(1) + k(2))
P("if", "int", "boolean int int", "(if : int $0 $1 $2)", lambda k, e: k(1) if k(0) else k(2))
P("if-then", "int", "boolean int boolean int int",
  "(if : int (then $0 $1) (then $2 $3) (else $4))",
  lambda k, e: k(1) if k(0) else k(3) if k(2) else k(4))
P("if-noelse", "int", "boolean int", "(if : int $0 $1)", lambda k, e: k(1) if k(0) else 0)
P("switch-int", "int", "int int int int", "(switch : int $0 (case 1 $1) (case 2 $2) (else $3))",
  lambda k, e: {1: lambda: k(1), 2: lambda: k(2)}.get(k(0), lambda: k(3))())
P("switch-str", "int", "string int int", '(switch : int $0 (case "k" $1) (else $2))',
  lambda k, e: k(1) if k(0) == "k" else k(2))
P("switch-expr", "int", "int int int", "(switch : int a (case $0 $1) (else $2))",
  lambda k, e: k(1) if k(0) == e["a"] else k(2))
P("let", "int", "int int", "(let : int [x@ : int := $0] (- (* 3 x@) $1))", lambda k, e: 3 * k(0) - k(1))
P("let2", "int", "int int",
  "(let : int [x@ : int := $0 y@ : int := (+ x@ $1)] (- y@ (* 2 x@)))", lambda k, e: k(1) - k(0))
P("let-str", "int", "string int", "(let : int [x@ : string := $0] (+ (length x@) $1))",
  lambda k, e: len(k(0)) + k(1))
P("let-list", "int", "intlist int", "(let : int [x@ : intlist := $0] (+ (length x@) (:1 x@) $1))",
  lambda k, e: len(k(0)) - 2 + at(k(0), 1, 0) + k(1))
P("call", "int", "int", "(twice $0)", lambda k, e: 2 * k(0))
P("call-later", "int", "int", "(later $0)", lambda k, e: k(0) + 100)
P("call3", "int", "boolean int int", "(pick $0 $1 $2)", lambda k, e: k(1) if k(0) else k(2))
P("call-var", "int", "int int int", "(total $0 $1 $2)", lambda k, e: k(0) + k(1) + k(2))
P("call-lib", "int", "int int", "(h/sub $0 $1)", lambda k, e: k(0) - k(1))
P("length", "int", "string", "(length $0)", lambda k, e: len(k(0)))
P("length-list", "int", "intlist", "(length $0)", lambda k, e: len(k(0)) - 2)
P(":1", "int", "intlist", "(:1 $0)", lambda k, e: at(k(0), 1, 0))
P(":2", "int", "intlist", "(:2 $0)", lambda k, e: at(k(0), 2, 0))
P("any<-list", "int", "intlist int", "(any<-list : int $0 $1)", lambda k, e: at(k(0), k(1), 0))
P("reduce", "int", "intlist int", "(any<-list-start-reduce : int $0 $1 (fn : int [r@ : int x@ : int] (- (* 2 x@) r@)))",
  lambda k, e: reduce_(k(0), k(1), lambda r, x: 2 * x - r))
P("reduce-capture", "int", "int int",
  "(any<-list-start-reduce : int l $0 (fn : int [r@ : int x@ : int] (+ r@ (* x@ $1))))",
  lambda k, e: reduce_(e["l"], k(0), lambda r, x: r + x * k(1)))
P("sum-list", "int", "intlist", "(+ $0)", lambda k, e: isum(k(0)))
P("thread", "int", "int int", "(<- $0 (- $1) (* 2))", lambda k, e: (k(0) - k(1)) * 2)
P("thread-last", "int", "int int", "(<<- $0 (- $1) (- 10))", lambda k, e: 10 - (k(1) - k(0)))
P(":n", "int", "pt", "(:num $0)", lambda k, e: prop(k(0), "num"))
P(":x", "int", "intmap", "(:x $0)", lambda k, e: dict(k(0)[2:]).get("x", 0))
P("resolve", "int", "int int", "(resolve : int (fn : int [] (- $0 $1)))", lambda k, e: k(0) - k(1))
# boolean
for op, f in (("<", lambda x, y: x < y), (">=", lambda x, y: x >= y), ("=", lambda x, y: x == y)):
    P(op, "boolean", "int int", "(%s $0 $1)" % op, lambda k, e, f=f: f(k(0), k(1)))
P("=str", "boolean", "string string", "(= $0 $1)", lambda k, e: k(0) == k(1))
P("and", "boolean", "boolean boolean", "(and $0 $1)", lambda k, e: k(0) and k(1))
P("or", "boolean", "boolean boolean", "(or $0 $1)", lambda k, e: k(0) or k(1))
P("!", "boolean", "boolean", "(! $0)", lambda k, e: not k(0))
P("is-empty", "boolean", "string", "(is-empty $0)", lambda k, e: k(0) == "")
P("contains", "boolean", "intlist int", "(contains $0 $1)", lambda k, e: k(1) in k(0)[2:])
P("if-bool", "boolean", "boolean boolean boolean", "(if : boolean $0 $1 $2)",
  lambda k, e: k(1) if k(0) else k(2))
P("let-bool", "boolean", "boolean boolean", "(let : boolean [x@ : boolean := $0] (and x@ $1))",
  lambda k, e: k(0) and k(1))
# string
P("string2", "string", "string string", "(string $0 $1)", lambda k, e: k(0) + k(1))
P("string-int", "string", "int", "(string $0)", lambda k, e: str(k(0)))
P("string-mix", "string", "string int", '(string "(" $0 "," $1 ")")', lambda k, e: "(%s,%d)" % (k(0), k(1)))
P("if-str", "string", "boolean string string", "(if : string $0 $1 $2)", lambda k, e: k(1) if k(0) else k(2))
P("switch-s", "string", "int string string", "(switch : string $0 (case 1 $1) (else $2))",
  lambda k, e: k(1) if k(0) == 1 else k(2))
P("let-s", "string", "string string", "(let : string [x@ : string := $0] (string x@ $1 x@))",
  lambda k, e: k(0) + k(1) + k(0))
P("label", "string", "int string", "(label $0 $1)", lambda k, e: "<%d%s>" % (k(0), k(1)))
P(":2str", "string", "stringlist", "(:2 $0)", lambda k, e: at(k(0), 2, ""))
P(":s", "string", "pt", "(:txt $0)", lambda k, e: prop(k(0), "txt"))
P("join", "string", "stringlist string", "(type/string<-stringlist-join $0 $1)", lambda k, e: k(1).join(k(0)[2:]))
P("reduce-str", "string", "stringlist string",
  "(any<-list-start-reduce : string $0 $1 (fn : string [r@ : string x@ : string] (string x@ r@)))",
  lambda k, e: reduce_(k(0), k(1), lambda r, x: x + r))
# lists
P("intlist2", "intlist", "int int", "(intlist $0 $1)", lambda k, e: IL(k(0), k(1)))
P("intlist-l", "intlist", "intlist int", "(intlist $1 $0)", lambda k, e: IL(k(1), *k(0)[2:]))
P("copy-l", "intlist", "intlist int", "(copy : intlist $0 $1)", lambda k, e: IL(*k(0)[2:], k(1)))
P("map", "intlist", "intlist", "(list<-list : intlist $0 (fn : int [x@ : int] (* x@ 3)))",
  lambda k, e: IL(*[x * 3 for x in k(0)[2:]]))
P("map-capture", "intlist", "intlist int", "(list<-list : intlist $0 (fn : int [x@ : int] (- x@ $1)))",
  lambda k, e: IL(*[x - k(1) for x in k(0)[2:]]))
P("filter", "intlist", "intlist int", "(list<-list-filter : intlist $0 (fn : int [x@ : int] (if : int (> x@ $1) x@)))",
  lambda k, e: IL(*[x for x in k(0)[2:] if x > k(1) and x]))
P("if-list", "intlist", "boolean intlist intlist", "(if : intlist $0 $1 $2)", lambda k, e: k(1) if k(0) else k(2))
P("let-l", "intlist", "intlist int", "(let : intlist [x@ : intlist := $0] (intlist x@ $1 x@))",
  lambda k, e: IL(*k(0)[2:], k(1), *k(0)[2:]))
P(":l", "intlist", "pt", "(:nums $0)", lambda k, e: prop(k(0), "nums"))
P("slice", "intlist", "intlist int", "(list<-list-start : intlist $0 $1)",
  lambda k, e: IL(*k(0)[2:][k(1) - 1:]) if 1 <= k(1) <= len(k(0)) - 2 else IL())
P("stringlist2", "stringlist", "string string", "(stringlist $0 $1)", lambda k, e: SL(k(0), k(1)))
P("map-str", "stringlist", "intlist string", "(list<-list : stringlist $0 (fn : string [x@ : int] (string x@ $1)))",
  lambda k, e: SL(*["%d%s" % (x, k(1)) for x in k(0)[2:]]))
P("keys", "stringlist", "intmap", "(stringlist<-map $0)", lambda k, e: SL(*[n for n, _ in k(0)[2:]]))
# maps and structs
P("intmap", "intmap", "int int", "(intmap :y $0 :x $1)", lambda k, e: mp(y=k(0), x=k(1)))
P("copy-m", "intmap", "intmap int", "(copy : intmap $0 :x $1)", lambda k, e: put(k(0), "x", k(1)))
P("if-map", "intmap", "boolean intmap intmap", "(if : intmap $0 $1 $2)", lambda k, e: k(1) if k(0) else k(2))
P("pt", "pt", "int string intlist", "(pt :num $0 :txt $1 :nums $2)", lambda k, e: pt(k(0), k(1), k(2)))
P("pt-n", "pt", "int", "(pt :num $0)", lambda k, e: pt(k(0)))
P("copy-pt", "pt", "pt int", "(copy : pt $0 :num $1)", lambda k, e: rt.S(k(0)[1], *[(n, k(1) if n == "num" else v) for n, v in k(0)[2:]]))
P("let-pt", "pt", "pt string", "(let : pt [x@ : pt := $0] (copy : pt x@ :txt $1))",
  lambda k, e: rt.S(k(0)[1], *[(n, k(1) if n == "txt" else v) for n, v in k(0)[2:]]))
P("if-pt", "pt", "boolean pt pt", "(if : pt $0 $1 $2)", lambda k, e: k(1) if k(0) else k(2))


CORE = len(PRODS)
# wider forms: every arity of the variadic forms, nested scopes, bare bodies
for n in (1, 4, 5):
    P("+%d" % n, "int", " ".join(["int"] * n), "(+ 1 %s)" % " ".join("$%d" % i for i in range(n)),
      lambda k, e, n=n: 1 + sum(k(i) for i in range(n)))
    P("string%d" % n, "string", " ".join(["string"] * n),
      "(string %s)" % " ".join('"%d" $%d' % (i, i) for i in range(n)),
      lambda k, e, n=n: "".join("%d%s" % (i, k(i)) for i in range(n)))
    P("intlist%d" % n, "intlist", " ".join(["int"] * n), "(intlist %s)" % " ".join("$%d" % i for i in range(n)),
      lambda k, e, n=n: IL(*[k(i) for i in range(n)]))
for n in (1, 3, 4):
    P("thread%d" % n, "int", "int" + " int" * n,
      "(<- $0 %s)" % " ".join("(h/sub $%d)" % (i + 1) for i in range(n)),
      lambda k, e, n=n: thread_(k, n, False))
    P("thread-last%d" % n, "int", "int" + " int" * n,
      "(<<- $0 %s)" % " ".join("(h/sub $%d)" % (i + 1) for i in range(n)),
      lambda k, e, n=n: thread_(k, n, True))
    P("lets%d" % n, "int", "int" + " int" * n,
      "(let : int [z@ : int := $0 %s] %s)" % (
          " ".join("w@%d : int := (- (* 2 %s) $%d)" % (i + 1, "w@%d" % i if i else "z@", i + 1) for i in range(n)),
          "(+ w@%d z@)" % n),
      lambda k, e, n=n: lets_(k, n))
    P("thens%d" % n, "int", " ".join(["boolean int"] * n) + " int",
      "(if : int %s (else $%d))" % (" ".join("(then $%d $%d)" % (2 * i, 2 * i + 1) for i in range(n)), 2 * n),
      lambda k, e, n=n: next((k(2 * i + 1) for i in range(n) if k(2 * i)), None) if any(
          k(2 * i) for i in range(n)) else k(2 * n))
    P("cases%d" % n, "int", "int " + " ".join(["int"] * n) + " int",
      "(switch : int $0 %s (else $%d))" % (" ".join("(case %d $%d)" % (n - 1 - i, i + 1) for i in range(n)), n + 1),
      lambda k, e, n=n: k(n - k(0)) if 0 <= k(0) < n else k(n + 1))
P("switch-noelse", "int", "int int", "(switch : int $0 (case 1 $1))", lambda k, e: k(1) if k(0) == 1 else 0)
P("let-bare", "int", "int int", "(let : int [x@ : int := $0] $1)", lambda k, e: k(1))
P("let-self", "int", "int", "(let : int [x@ : int := $0] x@)", lambda k, e: k(0))
P("let-let", "int", "int int int",
  "(let : int [x@ : int := $0] (let : int [y@ : int := (- $1 x@)] (- (* 2 y@) (+ x@ $2))))",
  lambda k, e: 2 * (k(1) - k(0)) - (k(0) + k(2)))
P("fn-let", "intlist", "intlist int int",
  "(list<-list : intlist $0 (fn : int [x@ : int] (let : int [y@ : int := (- x@ $1)] (- (* y@ 2) $2))))",
  lambda k, e: IL(*[2 * (x - k(1)) - k(2) for x in k(0)[2:]]))
P("fn-let-bare", "intlist", "intlist int int",
  "(list<-list : intlist $0 (fn : int [x@ : int] (let : int [y@ : int := (- x@ $1)] $2)))",
  lambda k, e: IL(*[k(2) for x in k(0)[2:]]))
P("fn-bare", "intlist", "intlist int", "(list<-list : intlist $0 (fn : int [x@ : int] $1))",
  lambda k, e: IL(*[k(1) for x in k(0)[2:]]))
P("fn-self", "intlist", "intlist", "(list<-list : intlist $0 (fn : int [x@ : int] x@))", lambda k, e: k(0))
P("fn-if", "intlist", "intlist boolean int",
  "(list<-list : intlist $0 (fn : int [x@ : int] (if : int (then $1 x@) (else (- $2 x@)))))",
  lambda k, e: IL(*[x if k(1) else k(2) - x for x in k(0)[2:]]))
P("fn-switch", "intlist", "intlist int int",
  "(list<-list : intlist $0 (fn : int [x@ : int] (switch : int x@ (case 2 $1) (else (+ x@ $2)))))",
  lambda k, e: IL(*[k(1) if x == 2 else x + k(2) for x in k(0)[2:]]))
P("fn-fn", "intlist", "intlist intlist int int",
  "(list<-list : intlist $0 (fn : int [x@ : int] (any<-list-start-reduce : int $1 $2"
  " (fn : int [r@ : int z@ : int] (- (+ r@ z@) (* x@ $3))))))",
  lambda k, e: IL(*[reduce_(k(1), k(2), lambda r, z: r + z - x * k(3)) for x in k(0)[2:]]))
P("let-fn", "intlist", "intlist int",
  "(let : intlist [y@ : int := (+ 1 $1)] (list<-list : intlist $0 (fn : int [x@ : int] (* x@ y@))))",
  lambda k, e: IL(*[x * (k(1) + 1) for x in k(0)[2:]]))
P("call-order", "int", "int int int int", "(order $0 $1 $2 $3)",
  lambda k, e: k(0) + 10 * k(1) + 100 * k(2) + 1000 * k(3))
P("recur", "int", "int", "(fact (if : int (then (> $0 6) 6) (else $0)))", lambda k, e: fact(min(6, k(0))))
P("call-ref", "intlist", "intlist", "(list<-list : intlist $0 twice)", lambda k, e: IL(*[2 * x for x in k(0)[2:]]))
P("map-fn", "intmap", "intmap int",
  "(map<-map : intmap $0 (fn : int [k@ : string x@ : int] (+ (* 2 x@) (length k@) $1)))",
  lambda k, e: rt.M("intmap", *[(n, 2 * x + len(n) + k(1)) for n, x in k(0)[2:]]))
P("or3", "boolean", "boolean boolean boolean", "(or $0 $1 $2)", lambda k, e: k(0) or k(1) or k(2))
P("and3", "boolean", "boolean boolean boolean", "(and $0 $1 $2)", lambda k, e: k(0) and k(1) and k(2))
P("pt-rev", "pt", "intlist string int", "(pt :nums $0 :txt $1 :num $2)", lambda k, e: pt(k(2), k(1), k(0)))


def thread_(k, n, last):
    v = k(0)
    for i in range(n):
        v = (k(i + 1) - v) if last else (v - k(i + 1))
    return v


def lets_(k, n):
    w = k(0)
    for i in range(n):
        w = 2 * w - k(i + 1)
    return w + k(0)


def mp(**kw):
    return rt.M("intmap", *kw.items())


def put(m, k, v):
    d = dict(m[2:])
    d[k] = v
    return rt.M("intmap", *d.items())


def reduce_(l, r, f):
    for x in l[2:]:
        r = f(r, x)
    return r


def leaf(typ, pos):
    if typ == "int" and pos % 2:
        return "b"
    return VARS[typ]


BYTYPE = {}
for _p in PRODS:
    BYTYPE.setdefault(_p.type, []).append(_p)


def expand(prods, inner):
    """every production with one position filled by each inner expression"""
    for p in prods:
        for i, t in enumerate(p.kids):
            for x in inner.get(t, ()):
                yield Node(p, [x if j == i else leaf(u, j) for j, u in enumerate(p.kids)])


def flat():
    return [Node(p, [leaf(u, j) for j, u in enumerate(p.kids)]) for p in PRODS]


def bytype(nodes):
    out = {}
    for n in nodes:
        out.setdefault(n.prod.type, []).append(n)
    return out


def level(n):
    cur = flat()
    for _ in range(n - 1):
        cur = list(expand(PRODS, bytype(cur)))
    return cur


ARGS = [("a", "int"), ("b", "int"), ("p", "boolean"), ("s", "string"), ("l", "intlist"),
        ("t", "stringlist"), ("m", "intmap"), ("q", "pt")]


def used(node, acc=None):
    """variables the expression mentions (its text, by leaf)"""
    acc = set() if acc is None else acc
    for k in node.kids:
        if isinstance(k, Node):
            used(k, acc)
        else:
            acc.add(k)
    if node.prod.name == "switch-expr":
        acc.add("a")
    if node.prod.name == "reduce-capture":
        acc.add("l")
    return acc


def is_core(node):
    """only productions of the first group"""
    return CORESET.__contains__(id(node.prod)) and all(is_core(k) for k in node.kids if isinstance(k, Node))


CORESET = {id(p) for p in PRODS[:CORE]}

SCOPES = {"let", "let-list", "let-bare", "if-then", "switch-int", "reduce-capture", "resolve", "thread", "if",
          "let-bool", "let-s", "if-str", "map-capture", "filter", "fn-let-bare", "fn-bare", "fn-if", "fn-fn", "let-fn",
          "map-str", "copy-pt", "let-pt", "map-fn", "call-var"}


def scoped():
    """depth 3, only forms that open a scope or choose a branch"""
    ps = [p for p in PRODS if p.name in SCOPES]
    cur = [Node(p, [leaf(u, j) for j, u in enumerate(p.kids)]) for p in ps]
    for _ in range(2):
        cur = list(expand(ps, bytype(cur)))
    return cur
