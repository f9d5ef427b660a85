"""L03: string literals and documentation text.

Enumerated: every sequence of text pieces up to a bound x every place a literal
can stand; executed in three targets, read back from the generated text in C#
and Kotlin.  Every documentation text, in every place documentation can stand,
must leave the generated declarations alone."""
import itertools
import os
import re
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import cc
import progs
import rt
import vf

deep = not vf.quick()
NL = ("\n", "\n")
# (source piece inside double quotes, meaning)
PIECES = [("a", "a"), (" ", " "), ("'", "'"), ('\\"', '"'), ("\\n", "\n"), ("\\t", "\t"), ("\\\\", "\\"),
          ("$", "$"), ("%", "%"), ("{", "{"), ("}", "}"), ("`", "`"), ("#", "#"), ("//", "//"), ("/*", "/*"),
          ("*/", "*/"), ("(", "("), (")", ")"), ("[", "["), ("]", "]"), (":", ":"), (";", ";"), (",", ","),
          ("é", "é"), ("中", "中"), ("\U0001f600", "\U0001f600"), ("&", "&"), ("<", "<"),
          ("?", "?"), ("\t", "\t"), ("+", "+"), ("0", "0"), ("n", "n"), ("x", "x"), ("u", "u"), ("${a}", "${a}"),
          NL, ("\n+", "\n  ")]
HARD = [("a", "a"), (" ", " "), ('\\"', '"'), ("\\n", "\n"), ("\\\\", "\\"), ("$", "$"), NL, ("n", "n")]
BACK = [("a", "a"), (" ", " "), ('"', '"'), ("'", "'"), ("\n", "\n"), ("(", "("), (")", ")"), ("$", "$"),
        ("//", "//"), ("中", "中"), ('\\"', '\\"'), ("\t", "\t"), ("{", "{")]


def literal(pieces, column):
    """double-quoted literal whose opening quote stands in the 1-based column"""
    out = '"'
    for src, _ in pieces:
        if src == "\n":
            out += "\n" + " " * column
        elif src == "\n+":
            out += "\n" + " " * (column + 2)
        else:
            out += src
    return out + '"'


# place -> text with @ for the literal (alone in front of it on its line: column known)
PLACES = {
    "body": "(func NAME : string @)",
    "line": "(func NAME : string\n @)",
    "arg": "(func NAME : string (string @))",
    "concat": "(func NAME : string (string \"<\" @ \">\"))",
    "list": "(func NAME : stringlist (stringlist @ \"z\"))",
    "map": "(func NAME : stringmap (stringmap :k @ :l \"z\"))",
    "let": "(func NAME : string (let [v1 : string := @] v1))",
    "if": "(func NAME : string (if : string (then true @) (else \"z\")))",
    "lambda": "(func NAME : stringlist (list<-list : stringlist (stringlist \"q\") (fn : string [w1 : string] @)))",
    "prop": "(func NAME : string (:name (pt :name @)))",
    "call": "(func NAME : string (echo @))",
    "const": "(const k-NAME : string @)\n(func NAME : string k-NAME)",
}
PRE = """(type pt : struct :properties [name : string])
(func echo : string [v : string] v)

"""


def wrap(place, s):
    return {"list": rt.L("stringlist", s, "z"), "map": rt.M("stringmap", ("k", s), ("l", "z")),
            "lambda": rt.L("stringlist", s), "concat": "<" + s + ">"}.get(place, s)


def place_text(place, name, pieces, quote='"'):
    t = PLACES[place].replace("NAME", name)
    while "@" in t:
        i = t.index("@")
        col = i - (t.rfind("\n", 0, i) + 1) + 1
        lit = literal(pieces, col) if quote == '"' else "`" + "".join(p for p, _ in pieces) + "`"
        t = t[:i] + "\0" + t[i + 1:]
        t = t.replace("\0", lit.replace("@", ""))
    return t


def texts():
    for n in (0, 1):
        for p in itertools.product(PIECES, repeat=n):
            for place in PLACES:
                yield place, p, '"'
        for p in itertools.product(BACK, repeat=n):
            for place in ("body", "line", "arg", "list"):
                yield place, p, "`"
    for p in itertools.product(PIECES, repeat=2):
        yield "body", p, '"'
    for p in itertools.product(HARD, repeat=3):
        yield "line", p, '"'
    for p in itertools.product(HARD[:6], repeat=2):
        for place in PLACES:
            yield place, p, '"'
    for p in itertools.product(BACK, repeat=2):
        yield "body", p, "`"
    if deep:
        for p in itertools.product(HARD, repeat=4):
            yield "body", p, '"'
        for p in itertools.product(PIECES, repeat=2):
            for place in ("concat", "list", "const", "lambda"):
                yield place, p, '"'


def usable(pieces, quote):
    s = "".join(m for _, m in pieces)
    src = "".join(p for p, _ in pieces)
    # an odd backslash run cannot arise; \x, \u, \0 are never formed by pieces after "\\\\" because it is one piece
    if quote == "`" and "\\" in src and not re.fullmatch(r'(?:[^\\]|\\")*', src):
        return False
    return True


LIT = re.compile(r'vx_new_string\("((?:[^"\\]|\\.)*)"\)')


def decode(lit):
    """value of a generated C#/Kotlin literal; None when it is not a plain literal"""
    out, i = [], 0
    while i < len(lit):
        c = lit[i]
        if c == "\\":
            i += 1
            out.append({"n": "\n", "t": "\t", '"': '"', "\\": "\\", "$": "$"}.get(lit[i], "\0"))
        else:
            out.append(c)
        i += 1
    return "".join(out)


def template(lit):
    """a Kotlin literal in which $ starts a template"""
    return re.search(r"(?<!\\)(?:\\\\)*\$(?=[A-Za-z_{])", lit) is not None


def textual(rep, C, packages, cases):
    """C# and Kotlin: the literal in the generated function, decoded"""
    res = C.compile(packages, langs=("csharp", "kotlin"), keep=True)
    if not res.ok:
        rep.violation("text", "literals are refused for C# or Kotlin:\n" + res.log[:800], {"packages": packages})
        return 0
    n = 0
    for lang, start in (("csharp", "public static Vx.Core.Type_%s f_%s() {"), ("kotlin", "fun f_%s() : vx_core.Type_%s {")):
        text = {p: res.read(lang, p) for p in packages}
        for (pkg, name), (place, pieces, quote) in cases.items():
            if place in ("const", "prop", "concat", "list", "map", "lambda"):
                continue
            head = start % (("string", name) if lang == "csharp" else (name, "string"))
            i = text[pkg].find(head)
            if i < 0:
                raise vf.CheckError("no %s function %s" % (lang, name))
            seg = text[pkg][i + len(head):text[pkg].index("\n  }", i)]
            lits = LIT.findall(seg)
            want = "".join(m for _, m in pieces)
            n += 1
            bad = [l for l in lits if "\n" in l or (lang == "kotlin" and template(l))]
            if bad or want not in [decode(l) for l in lits]:
                rep.violation("%s %s" % (lang, place_text(place, name, pieces, quote)),
                              "%s: %s: the generated literal is %s, expected the text %r" % (
                                  lang, place_text(place, name, pieces, quote), lits, want),
                              {"language": lang, "source": place_text(place, name, pieces, quote), "generated": seg})
    C.drop(res.dir)
    return n


# ---------------------------------------------------------- documentation

DOCS = ["a", "x */ y", "*/", "/* x", "// x", "x\\\\", "\\\\u0041", "\\\\u", "a\n b", "a\n\n b", "\\\"q\\\"", "'", "`", "@param x",
        "* / */ */", "*/ static int z = 1; /*", "$a ${b}", "é中\U0001f600", "<b> & </b>", "{", "}", ")", "# x", "*", "/",
        "*\n/", ":doc", "*//", "\t", ""]
DOCPLACES = {
    "func": "(func NAME : int 7 :doc @)",
    "before": "(func NAME : int :doc @ 7)",
    "deprecated": "(func NAME : int 7 :deprecated @)",
    "arg": "(func g-NAME : int [v1 : int :doc @] 7)\n(func NAME : int (g-NAME 1))",
    "type": "(type t-NAME : struct :properties [q1 : int] :doc @)\n(func NAME : int (+ 7 (:q1 (t-NAME))))",
    "property": "(type t-NAME : struct :properties [q1 : int :doc @ q2 : int])\n(func NAME : int (+ 7 (:q2 (t-NAME :q1 3))))",
    "list": "(type t-NAME : list :allowtypes [int] :doc @)\n(func NAME : int (+ 7 (:1 (t-NAME))))",
    "const": "(const k-NAME : int 7 :doc @)\n(func NAME : int k-NAME)",
}


def strip_comments(text):
    """generated code without comments and blank lines"""
    out, i, n = [], 0, len(text)
    while i < n:
        c = text[i]
        if text.startswith("/*", i):
            j = text.find("*/", i + 2)
            if j < 0:
                return "unterminated comment"
            i = j + 2
        elif text.startswith("//", i):
            j = text.find("\n", i)
            i = n if j < 0 else j
        elif c in "\"'":
            j = i + 1
            while j < n and text[j] != c and text[j] != "\n":
                j += 2 if text[j] == "\\" else 1
            out.append(text[i:j + 1])
            i = j + 1
        else:
            out.append(c)
            i += 1
    return "\n".join(l.rstrip() for l in "".join(out).split("\n") if l.strip())


def documentation(rep, C):
    cases = {}
    for d, (place, doc) in enumerate(itertools.product(DOCPLACES, DOCS)):
        cases["dc%dz" % d] = (place, doc)
    langs = ("js", "java", "cpp", "csharp", "kotlin")

    def package(docs):
        body = []
        for name, (place, doc) in cases.items():
            t = DOCPLACES[place].replace("NAME", name)
            body.append(t.replace("@", '"%s"' % doc) if docs else re.sub(r" :(?:doc|deprecated) @", "", t))
        return {"probe/p": cc.HEAD % "probe/p" + "\n".join(body) + "\n"}
    a, b = (C.compile(package(x), langs=langs, keep=True) for x in (True, False))
    if not b.ok:
        raise vf.CheckError("undocumented declarations are refused: " + b.log[:2000])
    if not a.ok:
        rep.violation("doc", "documentation makes the compiler refuse declarations:\n" + a.log[:800],
                      {"packages": package(True)})
        return 0, 0
    for lang in langs:
        files = [f for f in sorted(b.files()) if "/probe/" in f.lower() or "probe" in f.lower()]
        x, y = (strip_comments(r.read(lang, "probe/p")) for r in (a, b))
        if x != y:
            diff = next(((p, q) for p, q in itertools.zip_longest(x.split("\n"), y.split("\n")) if p != q))
            rep.violation("doc %s" % lang, "%s: documentation text changes the generated code: %r instead of %r" % (
                (lang,) + diff), {"language": lang, "packages": package(True)})
        if lang == "java" and re.search(r"(?<!\\)(?:\\\\)*\\u+(?![0-9a-fA-F]{4}|u)", a.read(lang, "probe/p")):
            rep.violation("doc java unicode", "java: documentation text forms an invalid unicode escape",
                          {"packages": package(True)})
    for r in (a, b):
        C.drop(r.dir)
    ran = progs.run(rep, "L03d", package(True), {("probe/p", n): 7 for n in cases},
                    label=lambda p, f: "documentation %r at %s" % (cases[f][1], cases[f][0]))
    return len(cases) * len(langs), ran


def main():
    rep = vf.Report("L03", "model_checking")
    C = cc.CC("L03")
    cases = [c for c in dict.fromkeys(texts()) if usable(c[1], c[2])]
    packages, expect, src, what = {}, {}, {}, {}
    per = (len(cases) + 7) // 8
    for k in range(0, len(cases), per):
        pkg = "probe/p%d" % (k // per)
        body = []
        for j, (place, pieces, quote) in enumerate(cases[k:k + per]):
            name = "q%dz" % (k + j)
            t = place_text(place, name, pieces, quote)
            body.append(t)
            expect[(pkg, name)] = wrap(place, "".join(m for _, m in pieces))
            src[(pkg, name)] = t
            what[(pkg, name)] = (place, pieces, quote)
        packages[pkg] = cc.HEAD % pkg + PRE + "\n".join(body) + "\n"
    ran = progs.run(rep, "L03", packages, expect, label=lambda p, f: src[(p, f)])
    read = textual(rep, C, packages, what)
    docs, docruns = documentation(rep, C)
    for k in list(src)[::max(1, len(src) // 10)]:
        rep.sample({"source": src[k], "value": str(expect[k])})
    rep.coverage = {"states": len(cases) + docs, "transitions": ran + docruns,
                    "traces_validated_against_impl": ran + read + docs + docruns,
                    "literals": len(cases), "literals_read_in_csharp_kotlin": read, "documented_declarations": docs}
    rep.assumptions = ["a line of a double-quoted text is indented at least to the column after its opening quote",
                       "backslashes in backtick texts stand only before a double quote"]
    return rep.finish()


vf.main(main)
