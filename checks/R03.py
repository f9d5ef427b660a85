"""R03: string functions."""
import itertools
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import funcheck
import vf
from funcheck import Skip
from rt import L

deep = not vf.quick()


def words(alpha, n):
    return ["".join(x) for k in range(n + 1) for x in itertools.product(alpha, repeat=k)]


W3 = words("ab", 4 if deep else 3)
T = funcheck.Table({
    "string": W3, "int": list(range(-2, 7)) if deep else list(range(-1, 6)),
    "stringlist": [L("stringlist", *x) for k in range(5 if deep else 4)
                   for x in itertools.product(["", "a", "bc"], repeat=k)],
})


def split(text, delim):
    return L("stringlist", *text.split(delim))


def sub(text, start, end):
    """1-based inclusive substring; a negative end counts from the end"""
    if end < 0:
        end = len(text) + end
    end = min(end, len(text))
    if start < 1 or start > end:
        return ""
    return text[start - 1:end]


def keyword(text, find):
    for i, c in enumerate(text):
        if (c in " \t\n\r") == (find == ":whitespace"):
            return i + 1
    return 0


def outdent(text):
    pos = keyword(text, ":nonwhitespace")
    if pos == 0:
        return text
    indent, rest = text[:pos - 1], text[pos - 1:]
    if indent == "":
        return text
    return rest.replace(indent, "\n" if "\n" in indent else "")


T.add("int a:string", "(length a)", len)
T.add("string a:string b:string", "(string a b)", lambda a, b: a + b)
T.add("string a:string b:string c:string", "(string a b c)", lambda a, b, c: a + b + c)
T.add("string a:string b:string", "(copy a b)", lambda a, b: a + b)
T.add("string a:string n:int", "(string a n)", lambda a, n: "%s%d" % (a, n))
T.add("string n:int", "(string n)", str, n=[-12, -1, 0, 1, 7, 10, 123])
T.add("string a:string b:int", "(string-repeat a b)", lambda a, b: a * b if b > 0 else "")
T.add("boolean a:string b:string", "(contains a b)", lambda a, b: b in a)
T.add("boolean a:string b:string", "(boolean<-string-starts a b)", lambda a, b: a.startswith(b))
T.add("boolean a:string b:string", "(boolean<-string-ends a b)", lambda a, b: a.endswith(b))
T.add("boolean a:string b:string", "(is-endswith a b)", lambda a, b: a.endswith(b))
T.add("int a:string b:string", "(int<-string-find a b)", lambda a, b: a.find(b) + 1)
T.add("int a:string b:string", "(int<-string-findlast a b)", lambda a, b: a.rfind(b) + 1,
      b=[w for w in W3 if w])
T.add("string a:string b:string c:string", "(string<-string-find-replace a b c)",
      lambda a, b, c: a.replace(b, c), a=words("ab", 4 if deep else 4), b=["a", "b", "ab", "aa", "ba", "aba"],
      c=["", "a", "b", "ab", "aa", "x", "xy"])
T.add("string a:string i:int j:int", "(string<-string-start-end a i j)", sub)
T.add("string a:string i:int", "(string<-string-start a i)", lambda a, i: sub(a, i, len(a)))
T.add("string a:string i:int", "(string<-string-end a i)", lambda a, i: sub(a, 1, i))
PIECES = words("ab,", 4 if deep else 4)
T.add("stringlist a:string b:string", "(stringlist<-string-split a b)", split, a=PIECES, b=[",", "ab", "b", ",,"])
T.add("string l:stringlist b:string", "(type/string<-stringlist-join l b)",
      lambda l, b: b.join(l[2:]), b=["", ",", "ab"])
T.add("string a:string", "(type/string<-stringlist-join (stringlist<-string-split a \",\") \",\")",
      lambda a: a, a=PIECES)
T.add("string a:string", "(string-trim a)", lambda a: a.strip(" \n\t"), a=words(["a", " ", "\n", "\t"], 3 + deep))
CASES = words(["a", "B", "z", "Z", "1", "_", " "], 3)
T.add("string a:string", "(string-uppercase a)", lambda a: a.upper(), a=CASES)
T.add("string a:string", "(string-lowercase a)", lambda a: a.lower(), a=CASES)
T.add("int a:string", "(int<-string a)", int, a=["0", "1", "-1", "7", "10", "12", "-45", "123", "99999", "007"])
T.add("float a:string", "(float<-string a)", float, a=["0", "1", "-1", "2.5", "-0.25", "10.75", "123"])
T.add("boolean a:string", "(is-empty a)", lambda a: a == "")
T.add("boolean a:string", "(!-empty a)", lambda a: a != "")
T.add("int a:string b:string", "(int<-string-findkeyword a b)", keyword,
      a=words(["a", "b", " ", "\t", "\n"], 4 if deep else 3), b=[":whitespace", ":nonwhitespace"])
T.add("int a:string b:string", "(int<-string-findkeyword a b)", lambda a, b: a.find(b) + 1, b=[w for w in W3 if w])
T.add("string a:string", "(string-outdent a)", outdent, a=words(["a", " ", "\n"], 6 if deep else 5))
# compositions
T.add("string a:string b:string", "(string<-string-start (string a b) (+1 (length a)))", lambda a, b: b,
      b=[w for w in W3 if w])
T.add("string a:string b:string", "(string<-string-end (string a b) (length a))", lambda a, b: a,
      a=[w for w in W3 if w])
T.add("int a:string b:string", "(length (string a b))", lambda a, b: len(a) + len(b))
LONG = ["0123456789abcdef" * 3 + "Z", " " + "ab" * 70 + " ", "x" * 17, "y" * 33]
for fn, mod in (("string-uppercase", str.upper), ("string-lowercase", str.lower), ("string-trim", lambda a: a.strip())):
    T.add("string a:string", "(%s a)" % fn, mod, a=LONG)
T.add("int a:string b:string", "(length (string a b))", lambda a, b: len(a) + len(b), a=LONG, b=LONG)
T.add("string a:string b:string c:string", "(string<-string-find-replace a b c)", lambda a, b, c: a.replace(b, c),
      a=LONG, b=["ab", "x", "0"], c=["", "abab", "long replacement text"])
T.add("stringlist a:string b:string", "(stringlist<-string-split a b)", split, a=LONG, b=["b", "9a", "x"])
UNI = ["", "é", "aé", "éa", "日", "a日b"]
T.add("string a:string b:string", "(string a b)", lambda a, b: a + b, a=UNI, b=UNI)
T.add("boolean a:string b:string", "(= a b)", lambda a, b: a == b, a=UNI, b=UNI)

if __name__ == "__main__":
    vf.main(lambda: funcheck.run(
        "R03", "R03", T,
        "every string function x every string over a two- or three-letter alphabet up to the bound (and every position from below the first to beyond the last character), in three target languages"))
