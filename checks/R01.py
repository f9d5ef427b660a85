"""R01: every nesting of the language's expression forms evaluates as the
reference interpreter says, in every runnable target language."""
import itertools
import os
import sys
import time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import funcheck
import lang
import rt
import vf

H = """(package probe/h)

(type pt : struct
 :properties
  [num : int
   txt : string
   nums : intlist])

(func sub : int
 [x : int
  y : int]
 (- x y))
"""
LOCAL = lang.PRELUDE[lang.PRELUDE.index("(func twice"):]
HEAD = """(package %s
 :libs
  (lib h :path probe/h)
  (lib collection :path vx/collection)
  (lib type :path vx/type))

"""
DOM = {"a": [0, 1, 2], "b": [1, 3], "p": [True, False], "s": ["", "k"],
       "l": [lang.IL(), lang.IL(2, 1)], "t": [lang.SL(), lang.SL("x", "k")],
       "m": [lang.mp(), lang.mp(x=4, z=5)], "q": [lang.pt(), lang.pt(3, "g", lang.IL(7))]}
TYPES = {n: ("probe/h/pt" if t == "pt" else t) for n, t in lang.ARGS}
CHUNK = 160


def packages(nodes):
    out = []
    for c in range(0, len(nodes), CHUNK):
        part = nodes[c:c + CHUNK]
        name = "probe/p%d" % (c // CHUNK)
        text = [HEAD % name, LOCAL]
        funcs = {}
        for i, n in enumerate(part):
            args = [a for a, _ in lang.ARGS if a in lang.used(n)]
            t = dict(lang.ARGS)
            text.append("(func f%d : %s\n [%s]\n %s)\n" % (
                i, n.prod.type, "\n  ".join("%s : %s" % (a, t[a]) for a in args), n.render()))
            funcs["f%d" % i] = [TYPES[a] for a in args]
        text.append(lang.POSTLUDE)
        out.append((name, "\n".join(text), funcs, part))
    return out


def explore(rep, name, nodes, langs, stats):
    pk = packages(nodes)

    def make():
        s = rt.Session(name, langs)
        s.argtypes = set(TYPES.values()) | {"any"}
        s.package("probe/h", H, {})
        for pname, text, funcs, _ in pk:
            s.package(pname, text, funcs)
        return s
    s, err = funcheck.confirm_build(make)
    if err:
        if "error" not in err.out.lower():
            raise vf.CheckError("%s %s: %s" % (err.lang, err.stage, err.out[-3000:]))
        rep.violation("build %s" % err.lang, "%s: expressions no longer %s: %s" % (err.lang, err.stage, err.out[:1500]),
                      {"language": err.lang, "stage": err.stage, "output": err.out[:6000]})
        rep.exhaustive = False
        return
    cases, want, node = [], [], []
    for pname, _, _, part in pk:
        for i, n in enumerate(part):
            args = [a for a, _ in lang.ARGS if a in lang.used(n)]
            for vals in itertools.product(*[DOM[a] for a in args]):
                env = dict(zip(args, vals))
                cases.append((pname, "f%d" % i, list(vals)))
                want.append(rt.text(n.eval(env)))
                node.append((n, env))
    got = s.call(cases)
    bad = []
    for k in range(len(cases)):
        for lg in langs:
            d = got[lg][k]
            if d == "NOTRUN":
                rep.exhaustive = False
                continue
            stats["transitions"] += 1
            stats["outcomes"].add(d)
            if funcheck.strip(d)[0] != want[k]:
                bad.append((k, lg, "expected %s, got %s" % (rt.show(want[k]), rt.show(funcheck.strip(d)[0]))))
    if bad:
        bad = funcheck.recheck(s, cases, want, bad, None)
    for k, lg, why in bad:
        n, env = node[k]
        rep.violation("%s %s %s" % (lg, n.name(), sorted(env.items())),
                      "%s: %s with %s: %s" % (lg, n.render(), {x: funcheck.literal(v) for x, v in env.items()}, why),
                      {"language": lg, "expression": n.render(), "type": n.prod.type, "env": env, "why": why,
                       "helpers": H + LOCAL + lang.POSTLUDE})
    stats["states"] += len({(n.name(), str(sorted(e.items()))) for n, e in node})
    stats["programs"] += len(nodes)
    stats["validated"] += len(cases) - len({k for k, _, _ in bad})
    for k in range(0, len(cases), max(1, len(cases) // 5)):
        rep.sample({"expression": node[k][0].render(), "env": {x: funcheck.literal(v) for x, v in node[k][1].items()},
                    "value": rt.show(want[k])})


def batched(rep, name, nodes, size, langs, stats):
    """explore in batches until the deadline; False when cut short"""
    batch, longest = [], 60
    for n in nodes:
        batch.append(n)
        if len(batch) == size:
            if time.time() + 1.3 * longest > vf.DEADLINE:
                return False
            began = time.time()
            explore(rep, name, batch, langs, stats)
            longest = max(longest, time.time() - began)
            batch = []
    if batch:
        explore(rep, name, batch, langs, stats)
    return True


def body():
    rep = vf.Report("R01", "model_checking")
    stats = {"transitions": 0, "states": 0, "programs": 0, "validated": 0, "outcomes": set()}
    one, two = lang.level(1), lang.level(2)
    both = one + two
    explore(rep, "R01", [n for n in both if lang.is_core(n)], rt.LANGS, stats)
    if time.time() - vf.START < 250:
        explore(rep, "R01", [n for n in both if not lang.is_core(n)], rt.LANGS, stats)
    else:
        rep.exhaustive = False
    depth = 2
    if not vf.quick():
        core = [n for n in two if lang.is_core(n)]
        prods = [p for p in lang.PRODS if id(p) in lang.CORESET]
        done = batched(rep, "R01js", lang.expand(prods, lang.bytype(core)), 20000, ("js",), stats)
        done = batched(rep, "R01deep", lang.scoped(), 4800, ("java", "cpp"), stats) and done
        depth = 3 if done else 2
        rep.exhaustive = rep.exhaustive and done
    rep.coverage.update(
        states=stats["states"], transitions=stats["transitions"],
        traces_validated_against_impl=stats["validated"], programs=stats["programs"],
        distinct_results=len(stats["outcomes"]), nesting_depth=depth,
        rule="every production of the expression grammar with every production nested in every type-correct position (depth 2: JS, Java, C++; thorough adds depth 3 of the first production group in JS and depth 3 of the scoping forms in Java and C++) x every environment of the finite variable domains")
    return rep.finish()


if __name__ == "__main__":
    vf.main(body)
