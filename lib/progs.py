"""Run enumerated programs: packages of functions without arguments whose values
a reference model predicts."""
import funcheck
import rt
import vf


class Raw(str):
    """an expectation that already is a dump"""


def run(rep, name, packages, expect, langs=rt.LANGS, label=None, args=None, argtypes=(), cpplibs=None,
        judge=None):
    """packages: {name: text}; expect: {(package, function): model value}.
    -> number of values compared.  args: {(package, function): ([types], [values])}"""
    args = args or {}

    def make():
        s = rt.Session(name, langs)
        s.argtypes = set(argtypes) | {"any"}
        if cpplibs:
            s.cpplibs = list(cpplibs)
        for pkg, text in packages.items():
            s.package(pkg, text, {f: args.get((p, f), ([], []))[0] for p, f in expect if p == pkg})
        return s
    s, err = funcheck.confirm_build(make)
    if err:
        if "error" not in err.out.lower():
            raise vf.CheckError("%s %s: %s" % (err.lang, err.stage, err.out[-3000:]))
        rep.violation("build %s %s" % (name, err.lang),
                      "%s: accepted programs do not %s: %s" % (err.lang, err.stage, err.out[:1500]),
                      {"language": err.lang, "stage": err.stage, "output": err.out[:6000],
                       "packages": {k: v[:20000] for k, v in packages.items()}})
        rep.exhaustive = False
        return 0
    keys = list(expect)
    cases = [(p, f, args.get((p, f), ([], []))[1]) for p, f in keys]
    want = [str(expect[k]) if isinstance(expect[k], Raw) else rt.text(expect[k]) for k in keys]
    got = s.call(cases)
    compared = 0
    bad = []
    for k in range(len(cases)):
        for lang in langs:
            d = got[lang][k]
            if d == "NOTRUN":
                rep.exhaustive = False
                continue
            compared += 1
            w = judge(want[k], d, cases[k], lang) if judge else (
                None if funcheck.strip(d)[0] == want[k] else "expected %s, got %s" % (
                    rt.show(want[k]), rt.show(funcheck.strip(d)[0])))
            if w:
                bad.append((k, lang, w))
    if bad:
        bad = funcheck.recheck(s, cases, want, bad, judge)
    for k, lang, why in bad:
        p, f = keys[k]
        text = label(p, f) if label else "%s %s" % (p, f)
        rep.violation("%s %s" % (lang, text), "%s: %s: %s" % (lang, text, why),
                      {"language": lang, "package": packages[p][:40000], "function": f, "why": why})
    return compared
