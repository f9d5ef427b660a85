"""L01: layout and comments never change a program, and broken bracketing never
compiles.

Enumerated, for a set of seed declarations covering every declaration form:
 * every gap between two tokens x every separator (blanks, tabs, the three line
   endings, block and line comments holding brackets and quotes); in the thorough
   tier every pair of gaps x a smaller set of separators.  The generated code of
   the variant must be that of the seed.
 * every deletion, insertion and replacement of one delimiter character at every
   position, and every truncation.  A reference scanner says which of these texts
   have unbalanced brackets or unterminated quotes; all of those must be refused.
"""
import itertools
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import cc
import vf

deep = not vf.quick()
COMMON = ["(type pair : struct :properties [left : int right : string])",
          "(type pairlist : list :allowtypes [pair])"]
SEEDS = {
    "arith": '(func f : int [a : int b : int] (+ a (* b 2) -3))',
    "string": '(func f : string [a : string] (string a "x y" `b c` ":k" ""))',
    "let": '(func f : int [a : int] (let : int [b : int := (+ a 1) c : int := (* b b)] (- c b)))',
    "if": '(func f : string [a : int] (if : string (then (< a 0) "neg") (then (= a 0) "zero") (else "pos")))',
    "switch": '(func f : int [a : string] (switch : int a (case "a" 1) (case "b" 2) (else 3)))',
    "lambda": '(func f : intlist [a : intlist] (list<-list : intlist a (fn : int [e : int] (+ e 1))))',
    "thread": '(func f : int [a : int] (<- a (+ 1) (* 2) (- 3)))',
    "thread2": '(func f : int [a : int] (<<- a (+ 1) (* 2) (- 3)))',
    "struct": '(func f : string [a : pair] (:right (copy : pair a :left 4 :right "z")))',
    "list": '(func f : int [a : pairlist] (:left (:1 a)))',
    "map": '(func f : int (:b (intmap :a 1 :b 2)))',
    "varargs": '(func f : int [a : string bs : intlist :...] (:1 bs))',
    "const": '(const f : string "abc" :doc "a constant")',
    "type": '(type f : struct :traits [pair] :properties [q : int w : stringlist] :doc "a type")',
    "listtype": '(type f : list :allowtypes [int string] :doc "a list")',
    "maptype": '(type f : map :allowtypes [pair])',
    "functype": '(func f : int [a : int<-int] (a 3))',
    "doc": '(func f : boolean [a : boolean :doc "an arg"] (and a true) :doc "a func" :alias "zz")',
    "default": '(func f : boolean [a : int b : string] (or (= a 1) (= b "q")))',
}
EXTRA = {"functype": ['(func int<-int : int [v : int] v)']}

# separators for a gap that needs whitespace; all begin and end with whitespace
SEPS = [" ", "  ", "\n ", "\n\n  ", "\t", " \t ", "\r\n ", "\r ", "\n\t",
        " /* c */ ", " // c\n ", " /**/ ", " /* ( [ { \" ` */ ", " // ) ] \" ` /*\n ",
        "\n /* a\n b */\n ", " /* // */ ", " /* * / */ ", " // // c\n // d\n "]
SMALL = ["\n ", "\t", " /* ) */ ", " // \"\n "]


def tokens(text):
    """split into tokens; brackets and quoted texts are tokens of their own"""
    out, i = [], 0
    while i < len(text):
        c = text[i]
        if c in " \n\t\r":
            i += 1
        elif c in "()[]":
            out.append(c)
            i += 1
        elif c in "\"`":
            j = text.index(c, i + 1)
            out.append(text[i:j + 1])
            i = j + 1
        else:
            j = i
            while j < len(text) and text[j] not in " \n\t\r()[]\"`":
                j += 1
            out.append(text[i:j])
            i = j
    return out


def glue(toks, seps):
    """seps: {gap: separator}; gap k lies before token k"""
    out = []
    for k, t in enumerate(toks):
        if k in seps:
            out.append(seps[k])
        elif k and not (toks[k - 1] in "([" or t in ")]"):
            out.append(" ")
        out.append(t)
    return "".join(out)


def balanced(text):
    """reference scanner: False when brackets do not match or a quote or block
    comment inside brackets is not closed"""
    stack, i, n = [], 0, len(text)
    while i < n:
        c = text[i]
        # a comment starts a token or stands outside all brackets
        start = i == 0 or text[i - 1] in " \n\t\r()[]{}\"`"
        if c == "/" and text[i:i + 2] == "//" and (start or not stack):
            j = text.find("\n", i)
            if j < 0:
                return not stack
            i = j + 1
            continue
        if c == "/" and text[i:i + 2] == "/*" and (start or not stack):
            j = text.find("*/", i + 2)
            if j < 0:
                return None if not stack else False
            i = j + 2
            continue
        if c in "\"`" and stack:
            j = i + 1
            while j < n and (text[j] != c or (c == '"' and text[j - 1] == "\\")):
                j += 1
            if j >= n:
                return False
            i = j + 1
            continue
        if c in "([{":
            stack.append(c)
        elif c in ")]}":
            if not stack or stack.pop() + c not in ("()", "[]", "{}"):
                return False
        elif not stack and c not in " \n\t\r/":
            return False
        i += 1
    return not stack


def strip_names(text, pkg):
    return text.replace(pkg, "PKG").replace(pkg[0].upper() + pkg[1:], "PKG")


LANGS = ("js", "java", "cpp", "csharp", "kotlin")


ENOUGH = 12        # deviations after which the search stops
SKIP = "skipped"


class Variants:
    def __init__(self, C, rep):
        self.C, self.rep = C, rep
        self.base = {}
        self.compared = 0
        self.refused = 0

    def package(self, name, seed, body):
        pre = "\n".join(COMMON + EXTRA.get(seed, [])) + "\n\n"
        return cc.HEAD % ("probe/" + name) + pre + body + "\n"

    def outputs(self, items, langs):
        """items: [(seed, body)] -> [{lang: text} or None if refused or SKIP]"""
        if self.refused >= ENOUGH:
            return [SKIP] * len(items)
        names = ["k%04dz" % i for i in range(len(items))]
        packs = {"probe/" + n: self.package(n, s, b) for n, (s, b) in zip(names, items)}
        res = self.C.compile(packs, langs=langs, keep=True)
        if not res.ok:
            self.C.drop(res.dir)
            if len(items) == 1:
                self.refusal = res.log
                self.refused += 1
                return [None]
            mid = len(items) // 2
            return self.outputs(items[:mid], langs) + self.outputs(items[mid:], langs)
        out = [{l: strip_names(res.read(l, "probe/" + n), n) for l in langs} for n in names]
        self.C.drop(res.dir)
        return out

    def check(self, cases, langs):
        chunk = 200 if len(cases) > 1600 else max(1, (len(cases) + 7) // 8)
        parts = [cases[i:i + chunk] for i in range(0, len(cases), chunk)]

        def one(part):
            return list(zip(part, self.outputs([(s, b) for s, b, _ in part], langs)))
        for (seed, body, what), out in itertools.chain.from_iterable(cc.parallel(one, parts)):
            if out == SKIP or len(self.rep.violations) >= ENOUGH:
                self.rep.exhaustive = False
                continue
            self.compared += len(langs)
            if out is not None and all(out[l] == self.base[seed][l] for l in langs):
                continue
            self.refused = 0
            again = self.outputs([(seed, body)], langs)[0]
            if again is not None and all(again[l] == self.base[seed][l] for l in langs):
                raise vf.CheckError("output of a variant differs only in company: " + body)
            why = "refused:\n" + self.refusal[:700] if again is None else "different code for " + ", ".join(
                l for l in langs if again[l] != self.base[seed][l])
            self.rep.violation("layout:" + body, "%s\n  seed    %r\n  variant %r\n%s" % (
                what, SEEDS[seed], body, why),
                {"package": self.package("p", seed, body), "seed": self.package("p", seed, SEEDS[seed])})


def variants():
    for seed, text in SEEDS.items():
        toks = tokens(text)
        for k in range(1, len(toks)):
            for sep in SEPS:
                # an opening bracket may not start a line (column one)
                yield seed, glue(toks, {k: sep}), "separator %r before token %d" % (sep, k)
        for sep in ["\n", "// c\n", "/* c */ ", "\n/* ( \n */\n", "  ", "\r\n"]:
            yield seed, sep + glue(toks, {}), "text %r before the declaration" % sep
            yield seed, glue(toks, {}) + " " + sep, "text %r after the declaration" % sep
        yield seed, glue(toks, {k: "\n  " for k in range(1, len(toks))}), "one token a line"
        yield seed, glue(toks, {k: "\r\n\t" for k in range(1, len(toks))}), "one token a line, CRLF"
        yield seed, glue(toks, {k: " /* c */ " for k in range(1, len(toks))}), "a comment in every gap"
        yield seed, glue(toks, {k: " // c\n " for k in range(1, len(toks))}), "a line comment in every gap"


def pairs():
    for seed, text in SEEDS.items():
        toks = tokens(text)
        for i, j in itertools.combinations(range(1, len(toks)), 2):
            for a, b in itertools.product(SMALL[1:], SMALL[1:]):
                yield seed, glue(toks, {i: a, j: b}), "separators %r and %r" % (a, b)


def broken():
    """texts whose bracketing is broken"""
    seen = set()
    for seed, text in SEEDS.items():
        if not deep and seed in ("thread2", "maptype", "default"):
            continue
        for i in range(len(text) + 1):
            cand = []
            for d in "()[]\"`{}":
                cand.append(text[:i] + d + text[i:])
                if i < len(text) and text[i] in "()[]\"`":
                    cand.append(text[:i] + d + text[i + 1:])
            if i < len(text) and text[i] in "()[]\"`":
                cand.append(text[:i] + text[i + 1:])
            if i:
                cand.append(text[:i])
            for c in cand:
                if c not in seen and c != text and balanced(c) is False:
                    seen.add(c)
                    yield seed, c
        for extra in (")", " )", "\n)", " ]", "]", " x", " \"", " \"a\"", " 1", "}", " {}", " `"):
            c = text + extra
            if c not in seen:
                seen.add(c)
                yield seed, c
    for c in ("()", "(func)", "[]", "(func f)", "(zork f : int 1)", "x", "\"a\"", "(func f : int ())",
              "(func f : int 1 2)", "(func f : int (+ 1 ()))", "(func f int 1)"):
        yield "arith", c


def main():
    rep = vf.Report("L01", "model_checking")
    C = cc.CC("L01")
    V = Variants(C, rep)
    seeds = list(SEEDS.items())
    outs = V.outputs(seeds, LANGS)
    for (seed, text), out in zip(seeds, outs):
        if out is None:
            rep.violation("seed:" + seed, "a well-formed declaration is refused: %s\n%s" % (
                text, V.refusal[:800]), {"package": V.package("p", seed, text)})
        else:
            V.base[seed] = out
    for seed in [s for s in SEEDS if s not in V.base]:
        del SEEDS[seed]
    cases = list(dict.fromkeys(variants()))
    langs = LANGS if deep else ("js", "cpp")
    V.check(cases, langs)
    npairs = 0
    if deep:
        allp = list(dict.fromkeys(pairs()))
        for i in range(0, len(allp), 1600):
            if vf.time.time() > vf.DEADLINE - 200:
                rep.exhaustive = False
                break
            V.check(allp[i:i + 1600], ("js",))
            npairs += len(allp[i:i + 1600])
    # broken texts, one compile each: these stop in the parser
    bad = list(broken())

    accepted = []

    def refused(item):
        if len(accepted) >= 2 * ENOUGH or len(rep.violations) >= ENOUGH:
            rep.exhaustive = False
            return True, None
        seed, text = item
        res = C.compile({"probe/p": V.package("p", seed, text)})
        ok = not res.ok and "Error" in res.log
        if not ok:
            accepted.append(item)
        return ok, res
    for item, (ok, res) in zip(bad, cc.parallel(refused, bad)):
        if not ok and len(rep.violations) < ENOUGH:
            accepted.clear()
            if refused(item)[0]:
                continue
            rep.violation("broken:" + item[1], "text with broken structure is accepted: %r" % item[1],
                          {"package": V.package("p", *item), "log": res.log[:1000]})
    for it in cases[::max(1, len(cases) // 6)]:
        rep.sample({"variant": it[1], "what": it[2]})
    for it in bad[::max(1, len(bad) // 6)]:
        rep.sample({"must be refused": it[1]})
    rep.coverage = {"states": len(cases) + npairs + len(bad), "transitions": C.runs,
                    "traces_validated_against_impl": V.compared + len(bad),
                    "layout_variants": len(cases), "layout_pairs": npairs, "broken_texts": len(bad)}
    rep.assumptions = ["an opening bracket in column one inside a declaration is refused by design",
                       "an unterminated block comment after the last declaration is not decided"]
    return rep.finish()


vf.main(main)
