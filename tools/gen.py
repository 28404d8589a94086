#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json. Run in /verif after editing."""
import json, os

here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
IN, PR, HI, SC, CF = "inputs", "programs", "histories", "schedules", "configurations"

P = []


def prop(id, title, statement, over, text, why, files, mech, note, built=True, reason=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, built=built, reason=reason))


prop("P01", "Child steps select exactly the named member",
     "A key step, whether written $.k, $['k'], $[\"k\"], $.\"k\" or /k or built with KeySelectorPath, selects from an object exactly the value of its member of that name, and from anything else (objects without the member, values, and arrays unless the key reads as an integer) nothing. Chained key steps select the member reached by following the names in turn. The text of a path in simple notation means the same as in $ notation.",
     [IN, PR], "every document tree within the shape bounds, with arbitrary member names and values; 11 notations; every key of up to 4 bytes through the builder",
     "the tests look up a few keys of one or two sample documents",
     ["path.go", "parser.go", "simplepath.go"],
     [("keySelector", "path.go keySelector.match/selectChildNodes"), ("path text to steps", "parser.go astPath, simplepath.go astSimplePath"), ("evaluation", "path.go evaluateAt")],
     "trees of depth 2, width 2; keys of up to 4 arbitrary bytes, or of 65 with one arbitrary byte")
prop("P02", "Index steps select exactly the addressed array element",
     "An index step $[i], or IndexSelectorPath(i), selects from an array of n elements exactly element i if 0<=i<n, exactly element n+i if -n<=i<0, and nothing for any other i; from a value it selects nothing. This holds for every int and every notation of the index.",
     [IN, PR], "every int index for arrays of 0 to 5 elements (thorough: 8); every index from -18 to 18 in 8 notations for arrays of 0 to 16",
     "no test uses a negative index, an index out of range, or IndexSelectorPath",
     ["path.go", "slice.go", "parser.go"],
     [("indexSelector", "slice.go"), ("integer keys", "path.go keySelector.intValue"), ("normalizeIndex", "slice.go normalizeIndex")],
     "arrays of up to 5 (8) elements and any 64-bit index; arrays of up to 16 and any index of -18..18")
prop("P03", "Slices select exactly the elements Python slicing selects",
     "A slice $[start:end:step] selects from an array exactly the elements a[start:end:step] has in Python: omitted bounds default to the ends, negative bounds count from the end, bounds out of range are clamped, and a negative step walks backwards. A step of zero selects nothing, a slice of an object or a value selects nothing, and the results come in document order or the order of the walk, each element once.",
     [IN, PR], "every int start, end and step, each present or omitted, for arrays of 0 to 4 elements (thorough: 8); 648 combinations of bounds and steps written as text for arrays of 0 to 16; over 50 slices of arrays of up to 300",
     "the tests have no slice with a step, and none with bounds out of range",
     ["slice.go", "itr.go", "parser.go"],
     [("sliceSelector, rangeSelector", "slice.go"), ("getRange", "slice.go"), ("rangeIterator", "itr.go"), ("astSlice", "parser.go")],
     "arrays of up to 4 (8) elements and any 64-bit bounds and steps; arrays of up to 16 with 648 slices, of up to 300 with over 50")
prop("P04", "Wildcards select every child and nothing else",
     "A wildcard step ($.*, $[*], /*) selects every member value of an object and every element of an array, each once, and nothing from a value. Elements come in array order, members in the order in which the document model lists the keys.",
     [IN, PR], "every document tree within the shape bounds; paths with wildcards before and after other steps, in 6 notations; objects with any member names, arrays of up to 300 elements",
     "the tests count the matches in one sample document",
     ["path.go", "itr.go"],
     [("wildcardSelector", "path.go"), ("evaluateAt", "path.go"), ("iterators", "itr.go")],
     "trees of depth 2 and width 2 or depth 4 and width 1 to 2 (thorough: 3,2,2); names of up to 2 characters")
prop("P05", "Recursive descent reaches every depth",
     "A path p..s selects every node that step s selects below p or below any descendant of p, however deep, and no other node; p.. alone and p..* select all proper descendants of p. A node that occurs at several places of the document is selected at each. This holds for keys, indexes, slices, unions and wildcards after the '..', and for steps before and after it.",
     [IN, PR], "every document tree within the shape bounds; every path made of one recursive and up to one other step of each kind, with every kind of step after the '..'; chains of up to 8 containers of any kinds; containers of up to 300 children",
     "the tests count the matches of three paths in one sample document",
     ["path.go", "parser.go"],
     [("evaluateAt, recursive steps", "path.go evaluateAt"), ("RecursiveDescent", "path.go"), ("astPath, '..' forms", "parser.go astPath")],
     "trees of depth 3, widths 2,1,1 (thorough 2,2,1), chains of depth 8")
prop("P06", "Unions select what any of their parts selects, once",
     "A union $[s1,s2,...] of keys, indexes, slices, wildcards and filters selects exactly the nodes that at least one of its parts selects, each once, in document order.",
     [IN, PR], "every document tree within the shape bounds; every union of two parts and many of three, with repeated and overlapping parts, behind and before other steps; containers of up to 300 children",
     "one test has a union of two indexes",
     ["path.go", "parser.go"],
     [("unionSelector", "path.go"), ("astBracketedSelector", "parser.go")],
     "trees of depth 2, widths 3,1 (thorough 4,2)")
prop("P07", "Filters select exactly the children for which the expression is true",
     "[?(e)] selects exactly those members and elements for which e is true with @ standing for that child and $ for the document root, at any depth and inside nested filters. A path that selects nothing is false; false, 0 and the empty string are false; true, other numbers and strings, arrays and objects are true.",
     [IN, PR], "every document tree within the shape bounds; every bool, int, float64, string of up to 2 bytes as the operand; filters on operands of every kind at every place of a path, nested filters",
     "the tests have two filters over one sample document",
     ["path.go", "expression.go"],
     [("filterSelector", "path.go"), ("pathExpression", "expression.go"), ("asBool", "expression.go exprValue.asBool")],
     "trees of depth 3, widths 2,2,1; scalars unbounded except strings of 2 bytes")
prop("P08", "Equality operators compare values, not representations",
     "== is true exactly if both operands are null, equal bools, equal strings, equal ints, or an int and a float64 (or two float64s) that are numerically equal as float64s; operands of different kinds are never equal. === further requires ints to be compared with ints and float64s with float64s. Both are symmetric, and != and !== are their negations.",
     [IN], "every pair of null, bool, int, float64, string of up to 2 bytes, array, object and nothing; operands from the document and literals",
     "the tests compare a few numbers and strings",
     ["expression.go"],
     [("equalityExpression", "expression.go"), ("equality3Expression", "expression.go"), ("valueAsNumber", "expression.go")],
     "strings of up to 2 bytes; all 64-bit ints and float64s")
prop("P09", "Relational operators order numbers and strings",
     "<, <=, > and >= compare ints as integers, an int and a float64 (or two float64s, neither of them NaN) as float64s without truncation, and two strings by their bytes. The four operators are consistent with each other, wherever the operands come from.",
     [IN], "every pair of ints and non-NaN float64s, every pair of strings of up to 2 bytes",
     "the tests compare a few small numbers",
     ["expression.go"],
     [("compareExpr", "expression.go"), ("relationalExpression", "expression.go")],
     "strings of up to 2 bytes; all 64-bit ints and float64s")
prop("P10", "Logical operators follow the truth of their operands",
     "a && b is true exactly if a and b are true, a || b exactly if a or b is, and !a exactly if a is false, where the truth of an operand is what a filter of that operand alone would decide. This holds for operands of every kind, including paths that select nothing, and for nested expressions.",
     [IN], "up to three operands, each any bool, int, float64, string of up to 2 bytes, array, object or nothing; 18 expressions",
     "the tests have one && between comparisons",
     ["expression.go"],
     [("landExpression, lorExpression, notExpression", "expression.go"), ("asBool", "expression.go")],
     "up to three operands")
prop("P11", "Arithmetic follows Go's integers and floats",
     "+ - * / % and unary minus of two ints give the int Go computes, and with a float64 operand the float64; ** gives the float64 power. A bool counts as 0 or 1; a division or remainder by zero, and an operand that is no number, give null.",
     [IN], "every pair of int, float64, bool, null, array, object and nothing; 6 binary operators in 8 forms, 6 unary forms",
     "the tests have one sum and one product",
     ["expression.go"],
     [("addExpression .. powExpression", "expression.go"), ("unaryMinusExpression", "expression.go"), ("valueAsNumber", "expression.go")],
     "all 64-bit ints and float64s; math.Pow and math.Mod are uninterpreted")
prop("P12", "in is true exactly for the elements of a list",
     "a in l is true exactly if some element of l equals a in the sense of ==, where l is an array literal, an array of the document, or a single value standing for a list of one; nothing is in an empty list.",
     [IN], "every null, bool, int, float64 and string of up to 2 bytes against lists of up to 2 (thorough: 3) of them",
     "no test uses in",
     ["expression.go"],
     [("inExpression", "expression.go"), ("arrayExpression", "expression.go"), ("equalityExpression", "expression.go")],
     "lists of up to 2 (3) elements")
prop("P13", "Search reports faithful paths, and Find the same nodes",
     "Each path that Search passes to its callback starts at the document root, and each further segment holds the child of the segment before that its member name or index addresses, with that child's node type; the path remains correct after the callback returns. Find returns the last nodes of these paths, in the same order, and ParseAndFind of the path's text finds the nodes that Parse and Find do.",
     [IN, PR], "266 paths made of steps of every kind over every document tree within the shape bounds, and chains of up to 257 nested containers",
     "no test looks at the captured paths beyond their last node",
     ["path.go", "docpath.go", "itr.go"],
     [("Search, Find", "path.go"), ("DocPath", "docpath.go"), ("iterators filling segments", "itr.go")],
     "trees of depth 2 and width 2 (266 paths), of depth 3 and widths 2,2,1 (34 paths); chains of depth 257")
prop("P14", "Searching and parsing have no side effects",
     "Finding and searching change neither the compiled path nor the document, so repeated searches, also of other documents in between and from within a callback, select the same nodes as a fresh path. Results and document paths that were handed out stay as they are. Parsing, Append and RecursiveDescent do not change the paths they are given or the exported path values.",
     [IN, HI], "paths of every kind over every document within the shape bounds, searched repeatedly, in turn with other documents and inside of callbacks",
     "the tests use each compiled path once",
     ["path.go", "parser.go", "expression.go"],
     [("evaluateAt's context", "path.go"), ("selectors' state", "path.go, slice.go"), ("Append, RecursiveDescent copy", "path.go")],
     "two documents of depth 2, width 2")
prop("P15", "Built and appended paths equal the parsed ones",
     "A path built from SelectRootPath, WildcardPath, KeySelectorPath, IndexSelectorPath, RecursiveDescent and Append selects what the corresponding text selects. Append(p, q) selects exactly what q selects below each node that p selects, however the appends are nested.",
     [IN, PR], "every sequence of one or two builder steps with and without recursion, in four nestings (thorough: also of three), bases extended repeatedly, and up to 17 steps appended in groups, over every document tree within the shape bounds",
     "the tests build no paths",
     ["path.go"],
     [("Append, RecursiveDescent, KeySelectorPath, IndexSelectorPath", "path.go")],
     "trees of depth 3, widths 2,2,1")
prop("P16", "Quoted keys address exactly the key they quote",
     "For every string k of valid UTF-8, $[MakeKeyString(k)], $.MakeKeyString(k), /MakeKeyString(k) and the path Join makes of keys parse, and select exactly the member named k and no other. Join() of no parts is the root.",
     [IN], "every key of up to 2 Unicode or 3 ASCII characters (thorough: 4), 46 reserved words and look-alikes; 9 notations; any other member name",
     "the tests quote four keys and never parse the result",
     ["escape.go", "parser.go", "simplepath.go", "expression.go"],
     [("MakeKeyString, Join", "escape.go"), ("unescapeString", "expression.go"), ("lexer", "Jsonpath.g4, parser/")],
     "keys of up to 2 Unicode or 3 (4) ASCII characters")
prop("P17", "String literals mean the characters they spell",
     "In a string literal in either quotes, every character stands for itself, \\b \\f \\n \\r \\t \\v \\0 for the control characters, \\xHH, \\uHHHH and \\u{H...} for the code point, a backslash before another character for that character, and a backslash before a line break for nothing. This holds for keys and for string operands, wherever they appear in a path.",
     [IN], "every literal of one or two such pieces with all characters and digits arbitrary; longer ones with one or two arbitrary characters",
     "the tests have no escapes",
     ["expression.go", "simplepath.go", "parser.go"],
     [("unescapeString", "expression.go"), ("lexer string rules", "Jsonpath.g4, parser/")],
     "one or two pieces; surrogate pairs and '_' in hex escapes are not specified")
prop("P18", "Number literals mean the number they spell",
     "Decimal, 0x, 0o and 0b integer literals, with or without underscores, are the int they spell, and literals with a fraction or an exponent the float64; a minus sign negates them. This holds for operands, indexes and slice bounds.",
     [IN], "37 integer and 23 float notations with one or two of their digits arbitrary, float literals against every float64, 11 notations as indexes and slice bounds",
     "the tests have a few small decimal numbers",
     ["expression.go", "parser.go"],
     [("numericLiteral", "expression.go"), ("keySelector.intValue", "path.go"), ("lexer number rules", "Jsonpath.g4, parser/")],
     "up to 2 arbitrary digits of floats and 6 of integers; overflowing literals are not specified")
prop("P19", "Parse accepts exactly the texts the grammar has, and reports the others",
     "Parse and ParseAndFind never panic or hang, whatever the text. They return an error for every text that is no path in the grammar: empty texts, unbalanced brackets or parentheses, unterminated quotes, dangling dots, slashes and operators, empty brackets, characters that belong to no token, text after the end of a path, expressions in which an operand is neither a path nor a literal, a list or a call. Paths made of names, indexes, slices, wildcards, unions and recursive descents are accepted.",
     [IN], "every ASCII text of up to 2 (thorough: 3) characters within 14 prefixes and suffixes, every single edit of 19 longer paths, every symbol and emoji in a wide range at every place, texts of up to 300 steps, lines or columns before the place of interest",
     "the tests parse valid paths only",
     ["parser.go", "simplepath.go", "expression.go", "Jsonpath.g4"],
     [("error listener", "parser.go errorListener, getParser"), ("lexer and parser", "parser/"), ("Parse", "parser.go"), ("ParseAndFind", "path.go")],
     "2 (3) arbitrary characters in a text; one edit of longer texts")
prop("P20", "No path and no document makes a search panic or hang",
     "Find and Search return normally for every path that Parse accepts and every document, also where the path makes no sense for it: steps into values, nulls and missing members, indexes and slices that are no integers, operators on operands of any kinds, function calls with odd arguments, and documents with nulls or Go values other than those of encoding/json. A document model is asked for members and keys of objects only, for elements of arrays only and within bounds, for lengths of objects and arrays only, and for values of value nodes only.",
     [IN, PR], "401 paths of all kinds over every tree within the shape bounds and every record of two operands of any kinds; 41 expressions over every pair of 28 values of odd kinds; ints at the ends of their ranges",
     "the tests search one well-formed document with fitting paths",
     ["path.go", "slice.go", "itr.go", "expression.go", "funcs.go", "docmodel.go"],
     [("evaluate methods", "expression.go"), ("selectors", "path.go, slice.go"), ("MapModel", "docmodel.go")],
     "trees of depth 2, widths 2,1; floats and strings from short lists")
prop("P21", "What is selected depends on the document, not on its model",
     "Find selects the same of a document whether it is given as a MapModel or by another DocModel of the same content, for filters of all kinds. MapModel itself reports the type, the length, the keys, the members and the elements of every node faithfully. A Go value other than a map[string]any and a []any is a value node.",
     [IN, CF], "30 filters over every pair of operands (null, bool, int, float64, string, array, object, nothing) under two document models; 266 paths under three; every MapModel node of a small tree, and of containers of up to 257 children, with any key",
     "the tests use MapModel only",
     ["docmodel.go", "expression.go", "path.go"],
     [("MapModel", "docmodel.go"), ("nodeValue", "expression.go nodeValue.getValue"), ("equality, comparison and arithmetic on nodes", "expression.go")],
     "strings of 2 bytes; trees of depth 2, width 2; containers of up to 257 children")
prop("P22", "DocPath operations append and remove exactly one segment",
     "Key, Index and Push return the path extended by exactly one segment with the given node, type, name and index, Pop the path without its last segment; the other segments are unchanged, Len is the number of segments and Last the last of them.",
     [IN, HI], "every sequence of 4 (thorough: 6) operations with arbitrary arguments",
     "the tests do not use DocPath on its own",
     ["docpath.go"],
     [("Key, Index, Push, Pop, Last, Len", "docpath.go")],
     "4 (6) operations in sequence")
prop("P23", "length counts elements, and unknown functions select nothing",
     "In a filter, length(x) and x.length() are the number of elements if x is an array, of the document or a literal, and 0 if the path x selects nothing; the result is an int like any other. A filter that calls a function which does not exist selects nothing.",
     [IN], "arrays of 0 to 5 elements in 37 calls, compared with every int; 9 calls of unknown functions over operands of every kind, and 142 expressions around such calls",
     "one test compares one length",
     ["funcs.go", "expression.go"],
     [("lengthFunc", "funcs.go"), ("functionCallExpression, methodCallExpression", "expression.go"), ("astArgumentExpression", "expression.go")],
     "arrays of up to 5 elements")
prop("P24", "Blanks do not change what a path means",
     "Spaces, tabs and line breaks around dots, '..', operators, commas and slashes, inside of brackets and at the end of a path do not change which nodes it selects.",
     [IN, PR], "39 paths with one or two arbitrary blanks at any one of their places, or any one at all of them, over every tree within the shape bounds or every pair of small operands",
     "the tests have few blanks",
     ["parser.go", "expression.go", "simplepath.go", "Jsonpath.g4"],
     [("SP", "Jsonpath.g4, parser/"), ("operators are taken from the children of a context", "expression.go astExpression"), ("astSlice, astElementList", "parser.go, expression.go")],
     "one or two blanks; the grammar has no blanks around ':' and just inside of parentheses")
prop("P25", "Operators group by precedence",
     "In filter expressions ** binds tightest (and to the right), then * / %, then + -, then < <= > >=, then in, then == != === !==, then &&, then ||; operators of one level group to the left, and unary + - ! bind tighter than all binary operators. Parentheses override this.",
     [IN, PR], "every pair of the 17 binary operators, and every unary with every binary operator, over operands of every int and bool",
     "the tests have one expression with two operators",
     ["expression.go", "Jsonpath.g4"],
     [("alternatives of expression", "Jsonpath.g4, parser/"), ("astExpression", "expression.go")],
     "two operators; ints of -1..2 next to ** / %")
prop("P26", "Compiled paths can be shared between goroutines",
     "Goroutines may search with one compiled path and one document, Parse and ParseAndFind, and combine shared paths (Append, RecursiveDescent) at the same time: they write to no memory they share, so there is no data race, and each selects what it would select alone.",
     [IN, SC], "314 paths, every tree within the shape bounds, every interleaving of two goroutines",
     "the tests have no goroutines",
     ["path.go", "slice.go", "expression.go", "parser.go", "funcs.go"],
     [("selectors hold no state of a search", "path.go, slice.go"), ("Append copies", "path.go"), ("package variables", "path.go, funcs.go, escape.go")],
     "trees of depth 2, widths 2,1; the parse tables of the ANTLR runtime and sync are trusted")


def main():
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]),
                why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], hook_needed=None)), ensure_ascii=False) + "\n")
    checks = [dict(
        property=p["id"],
        quick_cmd="bash check.sh %s quick" % p["id"],
        thorough_cmd="bash check.sh %s thorough" % p["id"],
        technique="symbolic execution of the Go SSA form of /repo with an SMT solver (own engine)",
        level="model_checking",
        level_note="Every path through the encoded functions within the bounds (%s) is explored and every assertion on it decided by the solver; counterexamples are replayed on the compiled code before they are reported. Trusts the engine's SSA semantics and its models of unicode tables, fmt and sync (cross-checked by native replay of explored paths on every run)." % p["note"]) for p in P if p["built"]]
    na = [dict(property=p["id"], reason=p["reason"]) for p in P if not p["built"]]
    with open(os.path.join(here, "MANIFEST.json"), "w") as f:
        json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
                       notes="No hooks in /repo: the harnesses in harness/ use the public API only."), f, indent=1)
        f.write("\n")


main()
