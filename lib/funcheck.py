"""Exhaustive comparison of small probe functions with a reference model.

A probe is one vxlisp function: argument types, body, and a Python model of
its value.  Every tuple of its finite argument domains is called in every
target language and each native result is compared with the model.
"""
import itertools

import rt
import vf


class Skip(Exception):
    """raised by a model outside the property's stated domain"""


class Table:
    def __init__(self, domains):
        self.dom = domains
        self.probes = []

    def add(self, sig, body, model, **dom):
        """sig: 'int a:int b:string' (return type first)"""
        parts = sig.split()
        args = [p.split(":") for p in parts[1:]]
        for n, t in args:
            if n not in dom and t not in self.dom:
                raise vf.CheckError("no domain for %s in %s" % (t, sig))
        self.probes.append((parts[0], args, body, model,
                            [dom.get(n, self.dom.get(t)) for n, t in args]))


HEAD = """(package %s
 :libs
  (lib collection :path vx/collection)
  (lib type :path vx/type)%s)

%s
"""


def strip(dump, keep=()):
    """split a driver dump into value and side notes"""
    val = dump
    notes = []
    for tag in (" ARGCHANGED", " LEAK"):
        i = val.find(tag)
        if i >= 0:
            notes.append(val[i:])
            val = val[:i]
    return val, notes


def source(pkg, table, prelude="", libs=""):
    out = [HEAD % (pkg, libs, prelude)]
    funcs = {}
    for i, (ret, args, body, _, _) in enumerate(table.probes):
        sig = ""
        if args:
            sig = " [%s]\n" % "\n  ".join("%s : %s" % (n, t) for n, t in args)
        out.append("(func q%d : %s\n%s %s)\n" % (i, ret, sig, body))
        funcs["q%d" % i] = [t for _, t in args]
    return "\n".join(out), funcs


def confirm_build(make):
    """build; a failure to compile generated code is confirmed by a second build"""
    s = make()
    try:
        s.build()
        return s, None
    except rt.BuildFailure:
        s = make()
        try:
            s.build()
            return s, None
        except rt.BuildFailure as e:
            return s, e


def run(prop, name, table, rule, prelude="", libs="", argtypes=(), langs=rt.LANGS,
        judge=None, level="model_checking", assumptions=(), sanitize=False,
        cpplibs=None, extra=None, rep=None):
    rep = rep or vf.Report(prop, level)
    pkg = "probe/p"
    text, funcs = source(pkg, table, prelude, libs)

    def make():
        s = rt.Session(name, langs, sanitize=sanitize)
        s.argtypes = set(argtypes) | {t for p in table.probes for _, t in p[1]} | {"any"}
        if cpplibs:
            s.cpplibs = list(cpplibs)
        s.package(pkg, text, funcs)
        return s
    s, err = confirm_build(make)
    if err:
        msg = err.out
        if "error" not in msg.lower():
            raise vf.CheckError("%s %s: %s" % (err.lang, err.stage, msg[-3000:]))
        rep.violation("build %s" % err.lang,
                      "%s: probe programs of this property no longer %s: %s" % (
                          err.lang, err.stage, msg[:1500]),
                      {"language": err.lang, "stage": err.stage, "program": text[:20000],
                       "output": msg[:4000]})
        rep.coverage.update(states=0, transitions=0, traces_validated_against_impl=0)
        rep.exhaustive = False
        return rep.finish()
    cases, want = [], []
    for i, (ret, args, body, model, doms) in enumerate(table.probes):
        for vals in itertools.product(*doms):
            try:
                w = model(*vals)
            except Skip:
                continue
            cases.append((pkg, "q%d" % i, list(vals)))
            want.append(rt.text(w))
    got = s.call(cases)
    compared = 0
    bad = []
    outcomes = set()
    for k, c in enumerate(cases):
        for lang in langs:
            d = got[lang][k]
            if d == "NOTRUN":
                rep.exhaustive = False
                continue
            compared += 1
            outcomes.add(d)
            w = judge(want[k], d, c, lang) if judge else (
                None if strip(d)[0] == want[k] else "expected %s, got %s" % (
                    rt.show(want[k]), rt.show(strip(d)[0])))
            if w:
                bad.append((k, lang, w))
    if bad:
        bad = recheck(s, cases, want, bad, judge)
    for k, lang, why in bad:
        i = int(cases[k][1][1:])
        p = table.probes[i]
        argtxt = " ".join("%s=%s" % (n, literal(v)) for (n, _), v in zip(p[1], cases[k][2]))
        rep.violation("%s %s %s" % (lang, p[2].replace("\n", " "), argtxt),
                      "%s: %s with %s: %s" % (lang, " ".join(p[2].split()), argtxt or "no arguments", why),
                      {"language": lang, "function": p[2], "args": [p[1], cases[k][2]],
                       "why": why, "package": text if len(text) < 200000 else ""})
    step = max(1, len(cases) // 10)
    for k in range(0, len(cases), step):
        p = table.probes[int(cases[k][1][1:])]
        rep.sample({"expression": " ".join(p[2].split()),
                    "args": [literal(v) for v in cases[k][2]], "value": rt.show(want[k])})
    rep.coverage.update(
        states=len({(c[1], repr(c[2])) for c in cases}),
        transitions=compared,
        traces_validated_against_impl=len(cases) - len({k for k, _, _ in bad}),
        probes=len(table.probes), distinct_results=len(outcomes),
        languages=list(langs), rule=rule)
    rep.assumptions.extend(assumptions)
    if extra:
        extra(rep, s)
    return rep.finish()


def recheck(s, cases, want, bad, judge, times=4):
    """keep only deviations that repeat on every further execution"""
    keys = sorted({k for k, _, _ in bad})[:200]
    sub = [cases[k] for k in keys]
    keep = {(k, lang): why for k, lang, why in bad if k in set(keys)}
    for _ in range(times):
        got = s.call(sub)
        for j, k in enumerate(keys):
            for lang in s.langs:
                if (k, lang) not in keep:
                    continue
                d = got[lang][j]
                if d == "NOTRUN":
                    continue
                w = judge(want[k], d, cases[k], lang) if judge else (
                    None if strip(d)[0] == want[k] else "x")
                if not w:
                    del keep[(k, lang)]
    return [b for b in bad if (b[0], b[1]) in keep]


def literal(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, str):
        return '"%s"' % v.encode("unicode_escape").decode().replace('"', '\\"')
    if isinstance(v, rt.L):
        return "(%s%s)" % (v[1], "".join(" " + literal(x) for x in v[2:]))
    if isinstance(v, (rt.M, rt.S)):
        return "(%s%s)" % (v[1], "".join(" :%s %s" % (k, literal(x)) for k, x in v[2:]))
    if isinstance(v, rt.E):
        return "(empty %s)" % v[1]
    return repr(v)
