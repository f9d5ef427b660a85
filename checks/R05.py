"""R05: map construction, access and map functions."""
import itertools
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import funcheck
import vf
from rt import L, M

deep = not vf.quick()
KEYS = ["a", "b", "c"] + (["d"] if deep else [])


def maps(typ, vals, keys=KEYS, order=False):
    out = []
    for k in range(len(keys) + 1):
        for ks in (itertools.permutations(keys, k) if order else itertools.combinations(keys, k)):
            for vs in itertools.product(vals, repeat=k):
                out.append(M(typ, *zip(ks, vs)))
    return out


ORDERED = maps("stringmap", ["x", "y"], order=True)   # every insertion order
SM = ORDERED + [m for m in maps("stringmap", ["", "x"], ["a", "b"]) if any(v == "" for _, v in m[2:])]
IM = maps("intmap", [1, 5])
T = funcheck.Table({
    "stringmap": SM, "intmap": IM, "string": ["", "a", "b", "c", "ab", "z"],
    "int": list(range(-2, len(KEYS) + 3)),
    "stringlist": [L("stringlist", *x) for k in range(4) for x in itertools.product(["a", "b", "z"], repeat=k)],
})


def SM_(pairs):
    return M("stringmap", *dict(pairs).items())


def get(m, k, empty=""):
    return dict(m[2:]).get(k, empty)


def put(m, *pairs):
    d = dict(m[2:])
    for k, v in pairs:
        d[k] = v
    return M(m[1], *d.items())


def sl(m, i, j):
    items = m[2:]
    if j < 0:
        j = len(items) + j
    j = min(j, len(items))
    if i < 1 or j < 1 or i > j:
        return M(m[1])
    return M(m[1], *items[i - 1:j])


T.add("string m:stringmap k:string", "(any<-map : string m k)", get)
T.add("int m:intmap k:string", "(any<-map : int m k)", lambda m, k: get(m, k, 0))
for k in KEYS + ["zz"]:
    T.add("string m:stringmap", "(:%s m)" % k, lambda m, k=k: get(m, k))
T.add("int m:stringmap", "(length m)", lambda m: len(m) - 2)
T.add("boolean m:stringmap", "(is-empty m)", lambda m: len(m) == 2)
T.add("boolean m:stringmap", "(!-empty m)", lambda m: len(m) != 2)
T.add("stringlist m:stringmap", "(stringlist<-map m)", lambda m: L("stringlist", *[k for k, _ in m[2:]]))
T.add("string m:stringmap i:int", "(any<-map-pos : string m i)",
      lambda m, i: m[i + 1][1] if 1 <= i <= len(m) - 2 else "")
T.add("int m:stringmap k:string", "(int<-map-key m k)",
      lambda m, k: [x for x, _ in m[2:]].index(k) + 1 if k in dict(m[2:]) else 0)
T.add("stringmap m:stringmap i:int j:int", "(map<-map-start-end m i j)", sl)
T.add("stringmap m:stringmap i:int", "(map<-map-start m i)", lambda m, i: sl(m, i, len(m) - 2))
T.add("stringmap m:stringmap i:int", "(map<-map-end m i)", lambda m, i: sl(m, 1, i))
T.add("stringmap m:stringmap l:stringlist", "(map<-map-keys m l)",
      lambda m, l: SM_([(k, dict(m[2:])[k]) for k in dict.fromkeys(l[2:]) if k in dict(m[2:])]))
T.add("stringmap m:stringmap n:stringmap", "(collection/- m n)",
      lambda m, n: SM_([(k, v) for k, v in m[2:] if k not in dict(n[2:])]),
      m=maps("stringmap", ["x", "y"], ["a", "b", "c"]), n=maps("stringmap", ["x", "y"], ["a", "b", "c"]))
T.add("stringlist m:stringmap", "(list<-map : stringlist m (fn : string [k : string v : string] (string k v)))",
      lambda m: L("stringlist", *[k + v for k, v in m[2:]]))
T.add("stringmap m:stringmap", "(map<-map : stringmap m (fn : string [k : string v : string] (string k v)))",
      lambda m: SM_([(k, k + v) for k, v in m[2:]]))
T.add("stringmap l:stringlist", '(map<-list : stringmap l (fn : string [x : string] (string x "k")))',
      lambda l: SM_([(x + "k", x) for x in l[2:]]))
T.add("string m:stringmap", '(any<-map-start-reduce : string m "s" (fn : string [r : string k : string v : string] (string r k v)))',
      lambda m: "s" + "".join(k + v for k, v in m[2:]))
T.add("int m:intmap", "(any<-map-start-reduce : int m 1 (fn : int [r : int k : string v : int] (+ (* 2 r) v)))",
      lambda m: red(m))
MF = "(map<-map : stringmap m (fn : string [kk : string v : string] (string kk v)))"
ML = '(map<-list : stringmap l (fn : string [x : string] (string "k" x)))'
T.add("int m:stringmap", "(length %s)" % MF, lambda m: len(m) - 2)
T.add("int l:stringlist", "(length %s)" % ML, lambda l: len(set(l[2:])))
T.add("stringlist m:stringmap", "(stringlist<-map %s)" % MF, lambda m: L("stringlist", *[k for k, _ in m[2:]]))
T.add("stringlist l:stringlist", "(stringlist<-map %s)" % ML,
      lambda l: L("stringlist", *dict.fromkeys("k" + x for x in l[2:])))
T.add("stringlist m:stringmap", "(list<-map : stringlist %s (fn : string [k : string v : string] (string v k)))" % MF,
      lambda m: L("stringlist", *[k + v + k for k, v in m[2:]]))
T.add("string m:stringmap k:string", "(any<-map : string %s k)" % MF,
      lambda m, k: k + get(m, k) if k in dict(m[2:]) else "")
T.add("stringmap m:stringmap", '(copy %s :q "1")' % MF, lambda m: SM_([(k, k + v) for k, v in m[2:]] + [("q", "1")]))
T.add("stringlist m:stringmap l:stringlist", "(stringlist<-map (map<-map-keys : stringmap m l))",
      lambda m, l: L("stringlist", *[k for k in dict.fromkeys(l[2:]) if k in dict(m[2:])]))
T.add("stringlist m:stringmap i:int j:int", "(stringlist<-map (map<-map-start-end : stringmap m i j))",
      lambda m, i, j: L("stringlist", *[k for k, _ in sl(m, i, j)[2:]]))
T.add("stringmap m:stringmap k:string", "(copy m :z k)", lambda m, k: put(m, ("z", k)), k=["q", "rr"])
T.add("stringmap m:stringmap k:string", "(copy m :a k)", lambda m, k: put(m, ("a", k)), k=["q", "rr"])
T.add("stringmap m:stringmap k:string", '(copy m :b k :z "w")', lambda m, k: put(m, ("b", k), ("z", "w")), k=["q"])
T.add("intmap m:intmap k:int", "(copy m :a k)", lambda m, k: put(m, ("a", k)), k=[3, 7])
T.add("stringmap a:string b:string", "(stringmap :a a :b b)", lambda a, b: SM_([("a", a), ("b", b)]), a=["x", "yy"], b=["x", "zz"])
T.add("stringmap a:string b:string", "(stringmap :a a :b b :a b)", lambda a, b: SM_([("a", b), ("b", b)]), a=["x", "yy"], b=["x", "zz"])
T.add("stringlist m:stringmap", '(stringlist<-map (copy m :a "n" :k "n"))',
      lambda m: L("stringlist", *dict.fromkeys([k for k, _ in m[2:]] + ["a", "k"])))
T.add("string m:stringmap n:string", "(:a (copy m :a n))", lambda m, n: n, n=["q"])
T.add("boolean m:stringmap n:stringmap", "(= m n)", lambda m, n: m[2:] == n[2:],
      m=maps("stringmap", ["x", "y"], ["a", "b", "c"]), n=maps("stringmap", ["x", "y"], ["a", "b", "c"]))


def red(m):
    r = 1
    for _, v in m[2:]:
        r = 2 * r + v
    return r


if __name__ == "__main__":
    vf.main(lambda: funcheck.run(
        "R05", "R05", T,
        "every map function x every map over the key alphabet in every insertion order x every key (present, absent, empty) and position from before the first to beyond the last, in three target languages"))
