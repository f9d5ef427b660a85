"""L04: the type checker accepts exactly the well-typed uses of a value.

Enumerated: every pair (type a place expects, type of the value put there) over
the library's and some user-declared types, for every kind of place a typed
value can be used in and several ways of producing the value; and every
argument count.  The oracle is the documented relation between types."""
import itertools
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import cc
import vf

deep = not vf.quick()
# name -> declaration (None: library type)
USER = {
    "pt": "(type pt : struct :properties [x : int y : string])",
    "qt": "(type qt : struct :properties [x : int y : string])",
    "base": "(type base : struct :properties [w : int])",
    "other": "(type other : struct :properties [u : int])",
    "child": "(type child : struct :traits [base] :properties [z : int])",
    "both": "(type both : struct :traits [other base] :properties [z : int])",
    "ptlist": "(type ptlist : list :allowtypes [pt])",
    "baselist": "(type baselist : list :allowtypes [base])",
    "ptmap": "(type ptmap : map :allowtypes [pt])",
}
LIB = ["int", "number", "float", "decimal", "string", "boolean", "any", "intlist",
       "numberlist", "stringlist", "booleanlist", "anylist", "list", "intmap", "stringmap",
       "numbermap", "anymap", "map", "struct", "msg", "error", "none"]
if deep:
    LIB += ["msgblock", "const", "intmap", "listtype", "numberlist", "msglist", "stringlistlist",
            "date", "arg", "arglist", "state", "value", "funclist"]
LIB = list(dict.fromkeys(LIB))
TYPES = LIB + list(USER)
MAPS = {"intmap", "stringmap", "numbermap", "anymap", "map", "ptmap"}
TRAITS = {"child": {"base"}, "both": {"other", "base"}}
NUMS = {"int", "float", "decimal"}


def allowed(t, s):
    """may a value of type s be used where t is expected?  None: not decided"""
    if t == s or t in ("any", "none"):
        return True
    if s in ("any", "none"):
        return False
    if t == "number":
        return s in NUMS
    if t in ("map", "anymap") and s in MAPS:
        return None
    if t in ("anytype",) or s in ("anytype",):
        return None
    return t in TRAITS.get(s, ())


# ways of having a value of type S at hand inside a function with v : S
FORMS = {
    "variable": "v",
    "call": "(mk-%(S)s v)",
    "let": "(let : %(S)s [q : %(S)s := v] q)",
    "property": "(:p%(I)d w)",
    "copy-call": "(mk-%(S)s (mk-%(S)s v))",
}
# places that expect a value of type T; @ is the value
PLACES = {
    "result": "(func %(n)s : %(T)s [v : %(S)s w : holder] @)",
    "argument": "(func %(n)s : int [v : %(S)s w : holder] (one-%(T)s @))",
    "first-of-2": "(func %(n)s : int [v : %(S)s w : holder] (two-%(T)s @ 1))",
    "second-of-2": "(func %(n)s : int [v : %(S)s w : holder] (owt-%(T)s 1 @))",
    "last-of-3": "(func %(n)s : int [v : %(S)s w : holder] (thr-%(T)s 1 \"a\" @))",
    "let-binding": "(func %(n)s : int [v : %(S)s w : holder] (let : int [r : %(T)s := @] 1))",
    "second-binding": "(func %(n)s : int [v : %(S)s w : holder]"
                      " (let : int [q1 : int := 1 r : %(T)s := @] 1))",
    "thread-first": "(func %(n)s : int [v : %(S)s w : holder] (<- @ (two-%(T)s 1)))",
    "thread-last": "(func %(n)s : int [v : %(S)s w : holder] (<<- @ (owt-%(T)s 1)))",
    "nested-argument": "(func %(n)s : int [v : %(S)s w : holder] (one-int (one-%(T)s @)))",
    "inside-let": "(func %(n)s : int [v : %(S)s w : holder]"
                  " (let : int [q1 : int := 1] (one-%(T)s @)))",
    "inside-if": "(func %(n)s : int [v : %(S)s w : holder]"
                 " (if : int (then true 1) (else (one-%(T)s @))))",
    "inside-list": "(func %(n)s : intlist [v : %(S)s w : holder] (intlist 1 (one-%(T)s @)))",
    "inside-lambda": "(func %(n)s : intlist [v : %(S)s w : holder]"
                     " (list<-list : intlist (intlist 1) (fn : int [e1 : int] (one-%(T)s @))))",
}


def preamble():
    out = list(USER.values())
    out.append("(type holder : struct :properties [\n%s])" % "\n".join(
        " p%d : %s" % (i, t) for i, t in enumerate(TYPES)))
    for t in TYPES:
        out.append("(func mk-%s : %s [a1 : %s] a1)" % (t, t, t))
        out.append("(func one-%s : int [a1 : %s] 1)" % (t, t))
        out.append("(func two-%s : int [a1 : %s a2 : int] 1)" % (t, t))
        out.append("(func owt-%s : int [a1 : int a2 : %s] 1)" % (t, t))
        out.append("(func thr-%s : int [a1 : int a2 : string a3 : %s] 1)" % (t, t))
    return "\n".join(out) + "\n\n"


# declarations outside the pair scheme: (name, text, accepted?)
def arity():
    out = []
    lits = ["1", '"a"', "true"]
    for have in range(4):
        sig = " ".join("a%d : %s" % (i + 1, ("int", "string", "boolean")[i]) for i in range(have))
        for given in range(5):
            n = "ar%dg%d" % (have, given)
            args = "".join(" " + (lits + ["2", "3"])[i] for i in range(given))
            out.append((n, "(func %sh : int [%s] 1)\n(func %s : int (%sh%s))" % (n, sig, n, n, args),
                        have == given))
    # fixed and repeating arguments
    for fixed in range(3):
        sig = "".join("a%d : string " % (i + 1) for i in range(fixed))
        for given in range(fixed + 4):
            n = "va%dg%d" % (fixed, given)
            args = "".join(' "s"' if i < fixed else " 1" for i in range(given))
            # no repeated argument at all is not decided here
            want = None if given == fixed else given > fixed
            out.append((n, "(func %sh : int [%sm1 : intlist :...] 1)\n(func %s : int (%sh%s))"
                        % (n, sig, n, n, args), want))
        for pos in range(fixed + 1, fixed + 4):
            for given in range(pos, fixed + 4):
                n = "vb%dg%dp%d" % (fixed, given, pos)
                args = "".join(' "s"' if i < fixed or i == pos - 1 else " 1" for i in range(given))
                out.append((n, "(func %sh : int [%sm1 : intlist :...] 1)\n(func %s : int (%sh%s))"
                            % (n, sig, n, n, args), False))
    return out


def literals():
    vals = {"int": ["7", "-7", "0", "+3"], "string": ['"a"', '""', '"7"', "`a`"],
            "boolean": ["true", "false"], "decimal": ["7.5", "-0.5"],
            "intlist": ["(intlist 1)", "(intlist)"], "stringlist": ['(stringlist "a")'],
            "intmap": ["(intmap :a 1)"], "pt": ["(pt :x 1)", "(pt)"], "qt": ["(qt :x 1)"],
            "child": ["(child)"], "base": ["(base)"], "both": ["(both)"]}
    places = {"result": "(func %(n)s : %(T)s @)", "constant": "(const %(n)s : %(T)s @)",
              "argument": "(func %(n)s : int (one-%(T)s @))",
              "let-binding": "(func %(n)s : int (let : int [r1 : %(T)s := @] 1))",
              "thread-first": "(func %(n)s : int (<- @ (two-%(T)s 1)))",
              "last-of-3": "(func %(n)s : int (thr-%(T)s 1 \"a\" @))"}
    out = []
    targets = [t for t in TYPES if t not in ("struct",)]
    for (pi, (p, text)), t, (s, exprs) in itertools.product(
            enumerate(places.items()), targets, vals.items()):
        want = allowed(t, s)
        if p == "constant" and t in ("any", "none", "struct"):
            want = None
        for k, e in enumerate(exprs):
            n = "li%d-%s-%s-%d" % (pi, t, s, k)
            out.append((n, (text % {"n": n, "T": t}).replace("@", e), want))
    return out


def unknown():
    """names that are not declared anywhere are refused in every place"""
    out = []
    ctx = {"result": "(func %s : int @)", "argument": "(func %s : int (one-int @))",
           "let": "(func %s : int (let : int [r1 : int := @] 1))",
           "list": "(func %s : intlist (intlist 1 @))", "const": "(const %s : int @)",
           "then": "(func %s : int (if : int (then true @) (else 1)))",
           "else": "(func %s : int (if : int (then true 1) (else @)))",
           "cond": "(func %s : int (if : int (then @ 1) (else 1)))",
           "lambda": "(func %s : intlist (list<-list : intlist (intlist 1) (fn : int [e1 : int] @)))",
           "thread": "(func %s : int (<- @ (one-int)))",
           "plus": "(func %s : int (+ 1 @))"}
    bad = ["(nofunc 1)", "(nofunc)", "novar", "(one-int novar)", "(one-int (nofunc 1))",
           "(let : int [k1 : int := novar] 1)", "(let : int [k1 : int := 1] k2)"]
    good = ["(one-int 1)", "(one-int (one-int 1))", "(let : int [k1 : int := 3] k1)"]
    for (c, text), (k, e) in itertools.product(enumerate(ctx.values()), enumerate(bad + good)):
        n = "un%dk%d" % (c, k)
        want = k >= len(bad)
        if list(ctx)[c] == "cond" and want:
            want = None
        out.append((n, (text % n).replace("@", e), want))
    for k, text in enumerate([
            "(func %s : zztype 1)", "(func %s : int [a1 : zztype] 1)",
            "(func %s : int (let : int [k1 : zztype := 1] 1))", "(const %s : zztype 1)",
            "(type %s : list :allowtypes [zztype])", "(type %s : struct :traits [zztype])",
            "(type %s : struct :properties [a1 : zztype])", "(func %s : int (zztype :a 1))",
            "(func %s : int [a1 : nopkg/int] 1)"]):
        out.append(("ut%d" % k, text % ("ut%d" % k), False))
    return out


SIGT = ["int", "string"]
SIGV = {"int": "1", "string": '"a"', "boolean": "true"}
if deep:
    SIGT.append("boolean")


def signatures():
    return [(r,) + a for r in SIGT for n in range(3) for a in itertools.product(SIGT, repeat=n)]


def signame(s):
    return "sg-" + "-".join(s)


def sigpreamble():
    out = []
    for s in signatures():
        args = " ".join("a%d : %s" % (i, t) for i, t in enumerate(s[1:]))
        out.append("(func %s : %s [%s] %s)" % (signame(s), s[0], args, SIGV[s[0]]))
        out.append("(func use-%s : %s [fnc : %s] (fnc%s))" % (
            signame(s), s[0], signame(s), "".join(" " + SIGV[t] for t in s[1:])))
    return "\n".join(out) + "\n"


def functions():
    """a function or lambda given where a function type is expected"""
    out = []
    for a, b in itertools.product(signatures(), repeat=2):
        n = "fr--%s--%s" % ("-".join(a), "-".join(b))
        out.append((n, "(func %s : %s (use-%s %s))" % (n, a[0], signame(a), signame(b)), a == b))
        n = "fl--%s--%s" % ("-".join(a), "-".join(b))
        args = " ".join("e%d : %s" % (i, t) for i, t in enumerate(b[1:]))
        out.append((n, "(func %s : %s (use-%s (fn : %s [%s] %s)))" % (
            n, a[0], signame(a), b[0], args, SIGV[b[0]]), a == b))
    return out


def main():
    rep = vf.Report("L04", "model_checking")
    C = cc.CC("L04")
    before = preamble() + sigpreamble()
    ok, log = C.confirm("(func zzz : int 1)", before=before)
    if not ok:
        rep.violation("preamble", "the declarations every case builds on are refused:\n" + log[:1500],
                      {"package": cc.HEAD % "probe/p" + before})
        rep.coverage = {"evaluations": 1, "distinct_nontrivial": 1, "rule": "preamble only"}
        return rep.finish()
    decls, want = {}, {}
    for (pi, (p, place)), (fi, (f, form)) in itertools.product(
            enumerate(PLACES.items()), enumerate(FORMS.items())):
        if not deep and fi and pi not in (0, 1, 5):
            continue
        for (ti, t), (si, s) in itertools.product(enumerate(TYPES), repeat=2):
            if place.count("@") and f == "let" and s == "none":
                continue
            n = "%s-%s-%s-%s" % (p, f, t, s)
            expr = form % {"S": s, "I": si}
            text = (place % {"n": n, "T": t, "S": s}).replace("@", expr)
            w = allowed(t, s)
            decls[n], want[n] = text, w
    for n, text, w in arity() + literals() + unknown() + functions():
        decls[n], want[n] = text, w
    C.runs = 0
    verdict, why = C.verdicts(decls, before=before)
    acc = sum(verdict.values())
    for n in decls:
        if want[n] is None or verdict[n] == want[n]:
            continue
        # alone, twice, before it is reported
        again = [C.confirm(decls[n], before=before) for _ in range(2)]
        if any(a[0] == want[n] for a in again):
            raise vf.CheckError("verdict on %s depends on its neighbours" % n)
        rep.violation(n, "%s: %s\n%s" % (
            "accepted although ill-typed" if verdict[n] else "refused although well-typed",
            decls[n], "" if verdict[n] else again[0][1][:600]),
            {"package": cc.HEAD % "probe/p" + before + decls[n] + "\n", "accepted": verdict[n]})
        if len(rep.violations) >= int(os.environ.get("VF_MAX", "40")):
            break
    for n in list(decls)[::max(1, len(decls) // 10)]:
        rep.sample({"declaration": decls[n], "accepted": verdict[n], "required": want[n]})
    decided = [n for n in decls if want[n] is not None]
    rep.coverage = {
        "states": len(decls), "transitions": C.runs,
        "traces_validated_against_impl": len(decided),
        "accepted": acc, "refused": len(decls) - acc, "places": len(PLACES), "types": len(TYPES)}
    rep.assumptions = ["a map type given where map or anymap is expected is not decided",
                       "the branches of if, switch and let are generic and not part of the claim"]
    return rep.finish()


vf.main(main)
