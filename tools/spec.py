"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/spec.py)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GO = "src/vxlisp/"
VX = "dist/vxlisp/vx/"
P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, level_note,
         level="model_checking", observe=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mechanism=mechanism, technique=technique,
                  level_note=level_note, level=level, observe=observe))


MC = "exhaustive bounded enumeration on the generated code against a reference model"
TRUST = "Trusts the small reference model, the native-value dumpers, node, javac/java and g++."

prop("R01", "Nested expressions evaluate the same way in every target language",
     "For every well-typed composition of the language's expression forms (conditionals, switches, let bindings, lambdas with captured variables, threading, function calls, property, index and key access, arithmetic, string, list, map and struct construction), compiling and running the program yields the value given by the language's evaluation rules. The value is the same in JavaScript, Java and C++.",
     ["programs", "inputs"],
     "All expressions formed by nesting each form in each type-correct argument position of each form (depth 2 in three targets, depth 3 in JavaScript), on every environment from small finite variable domains.",
     "Tests compile a few hand-written expressions per form; how forms compose is a product space no test list covers.",
     [GO + "value.go", GO + "func.go", GO + "lang-func.go", GO + "lang-native.go", GO + "lang-js.go", GO + "lang-cpp.go", VX + "core.vxlisp"],
     ["type linking of nested calls", "per-language expression rendering", "lambda capture rendering"],
     MC, "Every program up to the nesting bound is compiled by the real compiler and executed; " + TRUST)

prop("R02", "Arithmetic, ordering, equality and logic give the mathematical result",
     "For integers, numbers, strings and booleans, addition, subtraction, multiplication, division by a non-zero number, comparison, equality and boolean connectives give the mathematical result for two arguments, for several written arguments (taken left to right, comparisons holding between all neighbours) and, for sums, differences, products, and, or, for one list argument. Results agree in JavaScript, Java and C++.",
     ["inputs"],
     "All operator overloads, all argument tuples from finite domains including negatives, zero, values beyond single-float precision (comparison) and strings that are prefixes of each other.",
     "Tests check one or two value pairs per operator; off-by-one, sign, empty and many-argument cases are not reached.",
     [VX + "core.vxlisp", VX + "core_js.txt", VX + "core_java.txt", VX + "core_cpp.txt"],
     ["native operator bodies per language", "variadic operators defined by reduction"],
     MC, "Exhaustive over the stated domains; results within 5 significant digits for fractions. " + TRUST)

prop("R03", "String functions follow their 1-based definitions in every target",
     "Concatenation, length, find, find-last, contains, starts, ends, substring by 1-based inclusive positions (a negative end counts from the end, positions outside the text give the empty string), replace, split, join, trim, outdent, case change, repeat and number parsing return what their documentation defines for every text. Results agree in JavaScript, Java and C++.",
     ["inputs"],
     "All strings over small alphabets up to the length bound, all positions from before the first to beyond the last character, plus long and non-ASCII texts.",
     "Each string function has one to three example tests; boundaries, overlapping matches and long texts are unreached.",
     [VX + "type.vxlisp", VX + "type_js.txt", VX + "type_java.txt", VX + "type_cpp.txt", VX + "core.vxlisp", VX + "core_js.txt", VX + "core_java.txt", VX + "core_cpp.txt"],
     ["native string bodies per language"],
     MC, "Exhaustive over the stated alphabets and lengths. " + TRUST)

prop("R04", "List functions respect order, 1-based positions and element types",
     "Building, concatenating, copying, slicing, indexing, searching, mapping, filtering, flattening, joining, subtracting, reducing and looping over lists gives exactly the elements, in the order, that their definitions prescribe for every list. A position outside the list yields the empty value of the element type, never a failure; results agree in JavaScript, Java and C++.",
     ["inputs"],
     "All lists over two or three element values up to the length bound, all positions from well before the first to beyond the last element, all pairs of lists for binary functions.",
     "Tests use one short list per function and never an empty list, a repeated element or an out-of-range position.",
     [VX + "core.vxlisp", VX + "collection.vxlisp", VX + "collection_js.txt", VX + "collection_java.txt", VX + "collection_cpp.txt", VX + "core_js.txt", VX + "core_java.txt", VX + "core_cpp.txt"],
     ["native list bodies per language", "list constructors generated per type"],
     MC, "Exhaustive over the stated domains. " + TRUST)

prop("R05", "Map functions keep keys, values and insertion order",
     "Building, copying, looking up, listing keys, slicing, selecting keys, subtracting, mapping and reducing maps gives exactly the prescribed entries for every map, with keys in insertion order wherever order is observable. A missing key or a position outside the map yields the empty value of the element type; results agree in JavaScript, Java and C++.",
     ["inputs"],
     "All maps over three (four) keys in every insertion order with all small value assignments, all present, absent and empty keys, all positions, and compositions of map functions.",
     "Tests use one map in alphabetical order per function, which cannot distinguish insertion order from sorted order.",
     [VX + "core.vxlisp", VX + "collection.vxlisp", VX + "core_cpp.txt", VX + "core_java.txt", VX + "core_js.txt", VX + "collection_cpp.txt", VX + "collection_java.txt", VX + "collection_js.txt", GO + "lang-cpp.go"],
     ["map classes generated per type", "native map bodies per language"],
     MC, "Exhaustive over the stated domains. " + TRUST)

prop("L01", "Layout and comments never change what a program means",
     "Wherever one blank separates two tokens of a program, any mix of blanks, tabs, line ends and comments may stand instead, and whitespace may be added next to brackets, without changing the code generated for any target; the text inside double quotes and backticks is the exception. A source file whose brackets, quotes or declarations are left open or closed twice is refused with an error and nothing is generated from it.",
     ["programs"],
     "Every gap between tokens of a set of declarations using every syntactic form x every separator from a fixed set (pairs of gaps in the thorough tier); every single deleted or doubled bracket or quote.",
     "Tests parse a handful of tidy sources; the position of a comment or line end inside a form is a product space.",
     [GO + "textblock.go", GO + "value.go", GO + "func.go", GO + "arg.go", GO + "type.go", GO + "const.go", GO + "package.go"],
     ["lexing into nested blocks", "dropping of whitespace and comments before parsing"],
     "exhaustive enumeration of source layouts, generated code compared with that of the plain layout",
     "Every single deviation from the plain layout is compiled by the real compiler; trusts only the token splitter of the check.",
     observe=["generated sources", "compiler messages"])

prop("L04", "The type checker accepts exactly the well-typed uses",
     "A value is accepted where a type is expected if and only if its type is that type, or one that type allows (any accepts everything, number its numeric kinds, a trait its implementing types, a function type its matching signatures); calls must have the declared number and types of arguments, and unknown names are errors. Everything else is refused with an error that names the offending declaration, and nothing is generated.",
     ["programs"],
     "Every place an expression can stand x every form of expression x every pair of expected and given type, plus all literals, argument counts, variadic tails and function signatures.",
     "Tests contain only correct programs, so an acceptance of a wrong one cannot be seen, and each place has its own checking code.",
     [GO + "value.go", GO + "type.go", GO + "arg.go", GO + "func.go", GO + "signature.go", GO + "const.go"],
     ["linking of values with an expected type", "argument type and count validation", "type compatibility test"],
     "exhaustive enumeration of typed uses against a compatibility relation",
     "Exhaustive over the stated places, forms and types; bodies of generic calls (constructors, copy, conditional branches) are not decided.",
     observe=["compiler verdict and messages"])

prop("L05", "A call is linked to the first overload that fits",
     "Among functions of one name, a call runs the first declared one whose parameters accept the arguments and whose result fits the expected type; the calling package is searched first, then its libraries in the listed order, and a qualified name looks only in that library. A call that no overload fits is refused.",
     ["programs", "configurations"],
     "All ordered lists of two or three overloads over a set of signatures x all calls; overloads differing by result; all distributions of overloads over the calling package and two libraries x both library orders x qualified and unqualified calls.",
     "Tests use the library's own overloads in one order, where several resolution rules give the same answer.",
     [GO + "scope.go", GO + "signature.go", GO + "func.go", GO + "library.go", GO + "value.go", GO + "lang-func.go"],
     ["overload search through the library list", "signature match", "numbering of overloads in generated names"],
     "exhaustive enumeration of overload sets; each overload returns its own text, so execution shows the choice",
     "Accepted calls run in JavaScript, Java and C++; refusals are read from the compiler's messages. " + TRUST)

prop("L03", "String literals and documentation text are carried over exactly",
     "The text between double quotes (escapes resolved, continuation lines stripped of their indentation) or between backticks (unchanged) is exactly the value the program holds at run time, wherever a literal can stand and in every target language. Documentation text of any content changes nothing about the code generated for a declaration.",
     ["programs", "inputs"],
     "All sequences of text pieces (quotes, backslashes, comment marks, brackets, line ends, non-ASCII characters, interpolation marks) up to the length bound x every place a literal can stand; all documentation texts from the same pieces x every kind of declaration.",
     "Tests use plain words in literals; escaping is done separately per language and per place, and combinations of special characters are never tried.",
     [GO + "textblock.go", GO + "value.go", GO + "func.go", GO + "const.go", GO + "primative.go", GO + "lang-native.go", GO + "lang-cpp.go", GO + "lang-js.go"],
     ["lexing of quoted text", "removal of quotes and indentation", "escaping per target language", "documentation comments"],
     MC, "Literals are read back by running JavaScript, Java and C++ and by unescaping the C# and Kotlin text. " + TRUST)

prop("R06", "User-declared structs, lists and maps hold exactly what they are given",
     "A value of a declared struct has exactly the properties given to its constructor (in any order, the last one given counting), all others are empty; it also has the properties of its traits and of their traits, and can be used wherever one of those traits is expected. A copy with changes differs from the original only in what was changed, and the original keeps its value; declared list and map types keep their elements in order and by key in JavaScript, Java and C++.",
     ["programs", "inputs"],
     "All structs of up to three properties over ten property types, without trait, with one, a chain or a diamond of traits x all constructor calls over subsets and orders of properties, all reads, all single-property copies; all list and map types over the same types x all small contents.",
     "Tests use a few library types; the constructors are generated per type and property kind, so most combinations are never generated, let alone run.",
     [GO + "lang-type.go", GO + "lang-cpp.go", GO + "lang-js.go", GO + "lang-native.go", GO + "type.go", VX + "core_js.txt"],
     ["constructor and accessor generation per type", "trait inheritance of properties"],
     MC, "Exhaustive over the stated declarations. " + TRUST)

prop("R07", "A constant has the value of its defining expression everywhere",
     "Reading a constant gives the value its defining expression has, whatever its type, wherever it is read (directly, as an argument, in a condition, in another constant, in a lambda, from another package) and in whatever order constants that refer to each other are declared or named. The value is the same in JavaScript, Java and C++.",
     ["programs"],
     "All constant types x defining expressions x places of use; all acyclic references among three (four) constants x all declaration orders x kinds of value; all definitions read from another package.",
     "The library holds only a few constants of two types, none of which refers to another one.",
     [GO + "const.go", GO + "lang-const.go", GO + "lang-cpp.go", GO + "lang-js.go", GO + "value.go", GO + "package.go"],
     ["initialisation order of constants", "generated constant classes and static fields"],
     MC, "Exhaustive over the stated programs; constants of floating point and decimal type are not decided. " + TRUST)

prop("B01", "A project with an error is reported and no output file is touched",
     "If any package or the project file holds an error, the command prints an error that names where it is and leaves every file in the output directories exactly as it was, whatever was there before. Once the error is repaired, the same command produces the same files as a build from nothing.",
     ["fault_sequences", "programs", "configurations"],
     "Every kind of fault (syntax, unknown name, type, keyword, library, project) x every package it can be in x single and combined commands x output directory absent, from an earlier build, or holding foreign files.",
     "Tests build only correct projects; no test looks at the output directory after a failed build.",
     [GO + "command.go", GO + "project.go", GO + "package.go", GO + "file.go", GO + "msg.go", GO + "textblock.go"],
     ["collection of messages over all packages", "no write before every package is free of errors"],
     "exhaustive enumeration of faults and prior output states, directory contents compared byte for byte",
     "Every fault is compiled by the real command line tool in its own scratch project.",
     observe=["compiler messages", "output directory contents"])

prop("B02", "The same sources always produce byte-identical files",
     "Compiling a project writes the same bytes into the same files on every run, whatever order the compiler's hash tables happen to be walked in. Compiling again over an earlier build leaves every file, including its time stamp, untouched.",
     ["schedules", "programs"],
     "Every start slot and stride of map iteration, for several hash seeds, x all source, test and documentation commands, on a project that fills every map of the compiler and on the whole library.",
     "Go randomises map iteration on every run, so a test passes or fails by chance and the run that matters is never the one tested.",
     [GO + "package.go", GO + "type.go", GO + "func.go", GO + "const.go", GO + "project.go", GO + "file.go", GO + "doc.go", GO + "lang-test.go", GO + "code.go"],
     ["sorted walks over package, type, function and constant tables", "writing only changed files"],
     "schedule exploration: the compiler is built against a run time whose map iteration order the check chooses",
     "The iteration order of each map is fixed by three parameters that are enumerated; orders that no choice of the three gives are not covered.",
     observe=["generated files", "file times"])

prop("B03", "Packages may use each other in any acyclic way",
     "For every acyclic way packages list each other as libraries, whatever their names and file order, each package can use the types, constants, functions and overloads of its libraries, qualified or not, and gets their values at run time in JavaScript, Java and C++. Cyclic library references, missing packages and unlisted libraries are refused and nothing is written.",
     ["programs", "configurations"],
     "All library graphs on three packages (four in the thorough tier) x qualified or unqualified names; every cyclic graph; every single missing library.",
     "The library's own packages form one fixed graph whose names happen to sort in dependency order for most pairs.",
     [GO + "package.go", GO + "project.go", GO + "library.go", GO + "scope.go", GO + "lang-native.go", GO + "lang-cpp.go", GO + "lang-js.go"],
     ["ordering of packages by their libraries", "lookup of qualified and unqualified names", "generated imports"],
     MC, "Exhaustive over the stated graphs. " + TRUST)

prop("B04", "Commands given together write what each of them writes alone",
     "When several commands of a project are given at once, every output directory holds exactly the files the same command writes when it is run alone, for every combination and order of commands, also when a command is repeated and however the project path is written.",
     ["configurations", "histories"],
     "All ordered pairs (thorough: all ordered triples) of fourteen commands covering source, test, main and documentation output for five languages; all ways of writing the path option.",
     "Tests call the generators one by one in fresh state; state left over from one command to the next is never visible to them.",
     [GO + "command.go", GO + "project.go", GO + "lang-native.go", GO + "doc.go", GO + "lang-test.go", GO + "file.go"],
     ["command list parsing", "generation state shared between commands"],
     "exhaustive enumeration of command sequences, output compared with that of single commands",
     "Every sequence is run by the real command line tool.",
     observe=["generated files"])

prop("L02", "Names of any permitted shape mean the same thing in every role",
     "A program's own functions, arguments, variables, function literal arguments, types, properties, constants and map keys may have any name built of letters, digits, dashes, arrows, angle brackets and question marks, and the program gives the same values in JavaScript, Java and C++ as with plain names. Two different names in one scope stay two different things; functions and types whose names hold other symbols work under the internal name given for them. Reserved words of a target language are not part of the claim.",
     ["programs"],
     "All names of up to two words over three words and five joints plus three-word names, in 23 roles; all ordered pairs of twelve names in seven kinds of scope; 21 symbol names with an internal name in five roles; three languages.",
     "A test program fixes one name per role; which combination of name and role produces a broken or colliding identifier in which language shows only when all are tried.",
     [GO + "lang.go", GO + "lang-native.go", GO + "lang-func.go", GO + "lang-type.go", GO + "lang-cpp.go", GO + "lang-js.go", GO + "lang-const.go", GO + "value.go", GO + "textblock.go"],
     ["making identifiers of names", "alias", "argument, lambda and property naming per language"],
     "exhaustive enumeration of name x role, executed in three targets",
     "Every enumerated program is compiled by the real compiler and run; the expected value does not depend on the name.",
     observe=["values returned by generated functions"])

prop("T01", "Generated test suites report exactly the tests and coverage of the source",
     "The test suites generated for JavaScript, Java and C++ hold one case per tested declaration with all its tests in order, and each test passes exactly when its source statement holds. The reported coverage of types, constants, functions, documentation and time and space notes counts what the source declares, and a filter on one function leaves exactly that function's tests.",
     ["programs", "configurations"],
     "494 test statements in 456 declarations of 52 packages: every test form with expectations that hold and fail, declarations with every combination of notes, overloads, private and nested shapes; every filter of seven (thorough: all); three languages.",
     "The existing suites are written to pass: they cannot show that a failing statement is reported as failing, nor that nothing was left out or counted wrongly.",
     [GO + "lang-test.go", GO + "lang-testlib.go", GO + "lang-js.go", GO + "lang-cpp.go", GO + "func.go", GO + "type.go", GO + "const.go", GO + "command.go"],
     ["test case generation", "coverage counting", "filter"],
     "exhaustive enumeration of test declarations, generated suites executed and compared with the source",
     "The generated suites of three languages are run and their results compared one by one.",
     observe=["results and coverage returned by the generated suites"])

prop("A01", "A generated application runs its context and main function as declared",
     "The application generated for a command starts with the context function given for it, passes the command line to the main function as declared, and prints that function's value as text. This holds for every kind of main and context, also when one of them is not given, and the output is the same in JavaScript, Java and C++.",
     ["configurations", "inputs"],
     "Nine main functions (none, no argument, one list argument, with context, results of several types) x five contexts x ten command lines x three languages.",
     "The repository's tests never start a generated application.",
     [GO + "lang-js.go", GO + "lang.go", GO + "lang-cpp.go", GO + "lang-native.go", GO + "command.go", GO + "project.go"],
     ["application text", "main and context lookup", "argument passing"],
     "exhaustive enumeration of command configurations and command lines, generated applications executed",
     "Every application is built and run.",
     observe=["what the application prints"])

prop("C01", "C++ programs free every object exactly once",
     "A generated C++ function leaves no object behind and touches none after it was freed: when its result has been released, the number of live objects is what it was before the call, at the first call and at every later one. This holds however literals, variables, function literals, collections, structs, conditions and copies are nested.",
     ["programs", "histories"],
     "All compositions of depth two (thorough: three) of the expression forms of the language, each called four times under an address checker with the count of live objects compared.",
     "Values are right although an object leaks or is used after it was freed; the tests compare values.",
     [GO + "lang-cpp.go", GO + "lang-func.go", GO + "lang-type.go", VX + "core_cpp.txt"],
     ["reserve and release calls in generated code", "reference counts"],
     "exhaustive enumeration of nested expressions, executed with memory checking",
     "Every program is compiled from the generated C++ and run under AddressSanitizer; live objects are counted by the runtime itself.",
     observe=["live object count", "memory errors"])

prop("D01", "The documentation page says exactly what the source declares",
     "The generated documentation page has exactly one entry for the project, every package and every type, constant and function (each overload its own), reachable from the navigation and from every place that names it. An entry shows the declaration's name, description, types, arguments or properties, tests and source text exactly as written, whatever characters they hold, and the page stays well formed.",
     ["programs", "inputs"],
     "Descriptions of all ordered pairs (thorough: triples) of 17 troublesome texts in every place that takes one; ten name shapes per kind with and without an internal name; all argument and property lists of up to three entries over seven types; overload, test and library combinations; 27 projects.",
     "No test reads the page; an entry that is lost, mislinked, cut or breaks the page's structure depends on the text and the combination of declarations.",
     [GO + "doc.go", GO + "textblock.go", GO + "package.go", GO + "project.go", GO + "func.go", GO + "type.go", GO + "const.go", GO + "arg.go"],
     ["page text", "escaping", "links and ids", "source text of declarations"],
     "exhaustive enumeration of declarations, the page parsed and compared entry by entry",
     "Every page is written by the real command line tool and read with an HTML parser.",
     observe=["documentation page"])

#NEXT


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            anchors = {"files": p["files"], "mechanism": p["mechanism"]}
            if p["observe"]:
                anchors["observe_at"] = p["observe"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"], "anchors": anchors}) + "\n")
    done = [p for p in P if os.path.exists(os.path.join(ROOT, "checks", p["id"] + ".py"))]
    man = {
        "version": 1,
        "setup_cmd": "python3 tools/setup.py",
        "checks": [{
            "property": p["id"],
            "quick_cmd": "python3 checks/%s.py" % p["id"],
            "thorough_cmd": "python3 checks/%s.py" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": p["technique"],
            "level": p["level"],
            "level_note": p["level_note"]} for p in done],
        "not_applicable": [{"property": p["id"], "reason": "check not built yet"} for p in P if p not in done],
        "notes": "Every check builds the compiler from /repo's working tree, compiles enumerated vxlisp programs with it and runs the generated code; no hooks in /repo. The tier comes from VERIF_TIER.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
