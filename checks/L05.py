"""L05: a call is linked to the first matching overload.

Enumerated: every ordered list of overloads (two or three, over a set of
signatures) x every call; return-type overloads x expected type; and every way of
spreading overloads over the calling package and two libraries x both library
orders x qualified and unqualified calls.  Every overload returns its own text,
so running the program shows which one was linked."""
import itertools
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import cc
import progs
import vf

deep = not vf.quick()
VAL = {"int": "7", "string": '"s"', "boolean": "true", "number": "(mk-number)", "any": "(mk-any)",
       "intlist": "(intlist 1)", "pt": "(pt :x 1)", "kid": "(kid)", "float": "(mk-float)"}
PRE = """(type pt : struct :properties [x : int])
(type kid : struct :traits [pt] :properties [z : int])
(func mk-number : number [] (number 5))
(func mk-float : float [] (float 5))
(func mk-any : any [] "q")

"""


def allowed(t, s):
    t = t.rstrip("*")
    return t == s or t == "any" or (t == "number" and s in ("int", "float")) or (t == "pt" and s == "kid")


def matches(sig, call):
    if sig and sig[-1].endswith("*"):     # variadic: at least one value for the tail, or one list
        if len(call) == len(sig) and call[-1] == sig[-1][:-1] + "list":
            return matches(sig[:-1], call[:-1])
        return len(call) >= len(sig) and all(allowed(t, s) for t, s in zip(
            sig[:-1] + sig[-1:] * (len(call) - len(sig) + 1), call))
    return len(sig) == len(call) and all(allowed(t, s) for t, s in zip(sig, call))


ONE = [(t,) for t in ("int", "number", "string", "any", "pt", "intlist")]
TWO = [p for p in itertools.product(("int", "string", "any"), repeat=2)]
VAR = [("int*",), ("string*",), ("int", "int*"), ("int", "string*"), ("string", "int*"), ("int",), ("int", "int")]
CALLS1 = [(t,) for t in ("int", "number", "string", "any", "boolean", "pt", "kid", "intlist", "float")]
CALLS2 = [p for p in itertools.product(("int", "string", "boolean"), repeat=2)]
CALLS3 = [p for p in itertools.product(("int", "string"), repeat=3)]


def groups():
    """ordered overload lists"""
    yield from itertools.permutations(ONE, 2)
    yield from itertools.permutations(TWO, 2)
    for a in ONE[:4]:
        for b in TWO[:5]:
            yield (a, b)
            yield (b, a)
    yield from itertools.permutations(VAR, 3 if deep else 2)
    yield from itertools.permutations([(), ("int",), ("int", "int"), ("string", "int")], 3)
    if deep:
        yield from itertools.permutations(ONE, 3)
        yield from itertools.permutations(TWO, 3)
        yield from itertools.permutations(ONE[:3] + TWO[:3], 3)
    else:
        yield from itertools.permutations(ONE[:4], 3)


def sigtext(sig, names="abc"):
    return "[%s]" % " ".join("%s1 : %s" % (n, t if t[-1] != "*" else t[:-1] + "list :...") for n, t in zip(names, sig))


def single():
    """-> [(group text, [(call name, call text, expected or None)])]"""
    out = []
    for g, group in enumerate(dict.fromkeys(groups())):
        name = "ov%d" % g
        text = "".join('(func %s : string %s "%d")\n' % (name, sigtext(s), i) for i, s in enumerate(group))
        calls = []
        for c, call in enumerate([()] + CALLS1 + CALLS2 + CALLS3):
            if not any(len(s) == len(call) or (s and s[-1][-1] == "*") for s in group):
                if c % 7 or len(call) == 3:
                    continue
            want = next((str(i) for i, s in enumerate(group) if matches(s, call)), None)
            n = "c%dx%dz" % (g, c)
            calls.append((n, "(func %s : string (%s%s))" % (
                n, name, "".join(" " + VAL[t] for t in call)), want))
        out.append((text, calls))
    return out


def byreturn():
    """overloads that differ in what they return; the expected type decides"""
    out = []
    sigs = [(r, a) for r in ("int", "string", "boolean") for a in ("int", "string")]
    val = {"int": 100, "string": "s", "boolean": True}
    for g, group in enumerate(itertools.permutations(sigs, 2 if not deep else 3)):
        name = "rt%d" % g
        text = "".join("(func %s : %s [a1 : %s] %s)\n" % (
            name, r, a, {"int": str(100 + i), "string": '"%d"' % i, "boolean": "true"}[r])
            for i, (r, a) in enumerate(group))
        calls = []
        for r, a in sigs:
            hit = next((i for i, s in enumerate(group) if s == (r, a)), None)
            want = None if hit is None else {"int": 100 + hit, "string": str(hit), "boolean": True}[r]
            n = "r%dx%s%sz" % (g, r[0], a[0])
            calls.append((n, "(func %s : %s (%s %s))" % (n, r, name, VAL[a]), want))
        out.append((text, calls))
    return out


def main():
    rep = vf.Report("L05", "model_checking")
    C = cc.CC("L05")
    work = single() + byreturn()
    decls, want = {}, {}
    ov = "".join(t for t, _ in work)
    for _, calls in work:
        for n, text, w in calls:
            decls[n], want[n] = text, w
    # accept / refuse; the overloads of a batch travel with their calls
    verdict, why = {}, {}
    chunks = [work[i:i + 12] for i in range(0, len(work), 12)]

    def solve(chunk):
        v, w = {}, {}
        d = {n: t for _, calls in chunk for n, t, _ in calls}
        before = PRE + "".join(t for t, _ in chunk)
        sub, subwhy = C.verdicts(d, before=before)
        return sub, subwhy
    for sub, subwhy in cc.parallel(solve, chunks, 4):
        verdict.update(sub)
        why.update(subwhy)

    def before_of(name):
        return PRE + next(t for t, calls in work if any(n == name for n, _, _ in calls))
    for n in decls:
        if verdict[n] == (want[n] is not None):
            continue
        again = C.confirm(decls[n], before=before_of(n))
        if again[0] == (want[n] is not None):
            raise vf.CheckError("verdict on %s depends on its neighbours" % n)
        rep.violation("link " + before_of(n)[len(PRE):] + decls[n], "%s\n%s\n%s" % (
            "call accepted although no overload matches" if verdict[n] else
            "call refused although an overload matches", before_of(n)[len(PRE):] + decls[n],
            again[1][:500]), {"package": cc.HEAD % "probe/p" + before_of(n) + decls[n]})
        if len(rep.violations) >= 20:
            break
    # which overload was linked: run the accepted calls
    packages, expect, src = {}, {}, {}
    live = [(t, [c for c in calls if verdict[c[0]] and c[2] is not None]) for t, calls in work]
    size = (len(live) + 7) // 8
    for k in range(0, len(live), size):
        pkg = "probe/p%d" % (k // size)
        part = live[k:k + size]
        packages[pkg] = cc.HEAD % pkg + PRE + "".join(t for t, _ in part) + "\n".join(
            c[1] for _, calls in part for c in calls) + "\n"
        for t, calls in part:
            for n, text, w in calls:
                expect[(pkg, n)] = w
                src[(pkg, n)] = t + text
    runs = progs.run(rep, "L05", packages, expect, label=lambda p, f: src[(p, f)])
    # spread over packages
    multi = spread(rep, C)
    for n in list(decls)[::max(1, len(decls) // 10)]:
        rep.sample({"call": decls[n], "linked overload": want[n]})
    rep.coverage = {"states": len(decls) + multi[0], "transitions": C.runs,
                    "traces_validated_against_impl": runs + multi[1],
                    "overload_lists": len(work), "calls": len(decls), "calls_across_packages": multi[0]}
    return rep.finish()


DEFS = [[], ["int"], ["string"], ["any"], ["int", "string"], ["string", "int"], ["number", "int"]]


def spread(rep, C):
    configs = list(itertools.product(range(len(DEFS) if deep else 5), repeat=3))
    out = [part(rep, C, configs[i:i + 125]) for i in range(0, len(configs), 125)]
    return sum(a for a, _ in out), sum(b for _, b in out)


def part(rep, C, configs):
    texts = {"p": [], "a": [], "b": []}
    calls = {}           # (order, name) -> (text, want)
    for k, cfg in enumerate(configs):
        for who, d in zip("pab", cfg):
            for i, t in enumerate(DEFS[d]):
                texts[who].append('(func mv%d : string [v1 : %s] "%s%d")' % (k, t, who, i))
        for order in ("ab", "ba"):
            for q, arg in itertools.product(("", "a/", "b/"), ("int", "string", "boolean")):
                search = ["p"] + list(order) if not q else [q[0]]
                want = None
                for who in search:
                    for i, t in enumerate(DEFS[cfg["pab".index(who)]]):
                        if want is None and allowed(t, arg):
                            want = "%s%d" % (who, i)
                n = "m%d%s%s%sz" % (k, order, q[:1], arg[0])
                calls[(order, n)] = ("(func %s : string (%smv%d %s))" % (n, q, k, VAL[arg]), want)
    head = "(package probe/%s%s)\n\n"
    libs = {o: "\n :libs" + "".join("\n  (lib %s :path probe/%s)" % (x, x) for x in o) for o in ("ab", "ba")}

    def packages(sel):
        packs = {"probe/a": head % ("a", "") + "\n".join(texts["a"]) + "\n",
                 "probe/b": head % ("b", "") + "\n".join(texts["b"]) + "\n"}
        for o in ("ab", "ba"):
            packs["probe/p" + o] = head % ("p" + o, libs[o]) + "\n".join(texts["p"]) + "\n" + "\n".join(
                calls[c][0] for c in sel if c[0] == o) + "\n"
        return packs
    # refused calls are decided first, over batches that name them
    good = [c for c in calls if calls[c][1] is not None]
    bad = [c for c in calls if calls[c][1] is None]
    res = C.compile(packages(good))
    if not res.ok:
        import re
        names = list(dict.fromkeys(re.findall(r"(?m)^Error: *probe/p(ab|ba)/(m\w+z)", res.log)))
        for c in names[:20]:
            alone = C.compile(packages([c]))
            if not alone.ok:
                rep.violation("spread " + calls[c][0], "call refused although an overload matches: libraries %s, "
                              "%s\n%s" % (c[0], calls[c][0], alone.log[:500]),
                              {"packages": packages([c]), "call": calls[c][0]})
        if not names:
            rep.violation("spread", "calls across packages are refused:\n" + res.log[:800],
                          {"packages": packages(good)})
        ran = 0
    else:
        ran = progs.run(rep, "L05m", packages(good), {("probe/p" + o, n): calls[(o, n)][1] for o, n in good},
                        label=lambda p, f: "libraries %s: %s" % (p[-2:], calls[(p[-2:], f)][0]))
    # every call without a match is refused: compile them all at once, each must be named
    import re
    left = list(bad)
    rounds = 0
    while left and rounds < 6:
        rounds += 1
        r = C.compile(packages(left))
        named = set(re.findall(r"(?m)^Error: *probe/p(ab|ba)/(m\w+z)", r.log))
        rest = [c for c in left if c not in named]
        if r.ok or len(rest) == len(left):
            break
        left = rest
    for c in left[:20]:
        alone = C.compile(packages([c]))
        if alone.ok:
            rep.violation("spread " + calls[c][0], "call accepted although no overload matches: libraries %s, %s" % (
                c[0], calls[c][0]), {"packages": packages([c]), "call": calls[c][0]})
    return len(calls), ran + len(bad)


vf.main(main)
