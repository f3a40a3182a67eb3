EX = "execution.py"
PT = "ptypes.py"
SC = "scanning.py"
PA = "parsing.py"
TK = "tokens.py"
OP = "operators.py"
CLI = "pip.py"
DIFF = "differential PBT against a reference interpreter"
SWEEP = DIFF + "; exhaustive small-scope operand sweep"
REF = ("Generated programs, and every listed operator over a pool of boundary "
       "operands, must print what an independent reference implementation "
       "predicts.")

prop("P01", "Layout and comments never change meaning; literals mean their text",
     "A program means the same however its tokens are separated: white "
     "space and comments (after two spaces, on a line starting with ;, or "
     "between {; and ;}) between tokens change neither its tokens nor its "
     "behaviour; adjacent tokens separate by longest match, a run of "
     "capitals into pairs, after a single letter if it is odd. A string, "
     "character, Pattern, number or escaped-string literal denotes exactly "
     "the text written in it whatever characters it holds, with only "
     "escapes and \\-interpolation of names applied, and an unterminated "
     "one is reported.",
     ["programs", "inputs"],
     "all program texts and all ways of laying out the same tokens",
     "no test scans or runs program text.", [SC, TK, PA, EX],
     [("tokenizing and comment handling", SC),
      ("token classes and literal values", TK)],
     "differential PBT against a reference lexer; metamorphic re-layout; "
     "fragment fuzzing",
     "Token listings of random fragment soup and random text are compared with "
     "a reference lexer; programs re-laid-out at random must behave the same; "
     "literals of nasty characters are evaluated.")
prop("P02", "Expressions group by the operators' precedence and associativity",
     "Any expression groups exactly as if every operator application had been "
     "parenthesized according to the published precedence, associativity, "
     "prefix/infix/ternary arity, call, fold/scan/map/assignment meta-operator "
     "and chaining rules; writing those parentheses out does not change its "
     "value.",
     ["programs"], "all expressions over all operators, meta-operators and nestings",
     "no test parses an expression.", [PA, OP, TK],
     [("parseExpr / parseOperand precedence climbing", PA),
      ("operator table", OP)],
     "differential PBT against a reference parser, exhaustive operator pairs",
     "Function displays (which show the grouping) are compared with a reference "
     "parser for every pair of operators and random expressions; values of the "
     "spelled-out form are compared too.")
prop("P03", "Every text is either run or cleanly rejected",
     "Any text whatever given as a program is either accepted by scanner "
     "and parser or rejected with an error message that says so and a "
     "failing exit status, never an internal exception; exactly the "
     "syntactically valid programs are accepted. No part of a rejected "
     "program is run.",
     ["inputs", "programs"], "all texts, including truncated, mutated and very deeply nested ones",
     "no test scans or parses.", [SC, PA, CLI],
     [("err.die / incomplete handling", "scanning.py, parsing.py"),
      ("run()", CLI)],
     "grammar-based and mutation fuzzing against a reference parser",
     "Accept/reject and the form of the rejection are compared with a reference "
     "parser on token soup, mutants of valid programs, truncations and deep "
     "nesting.")
prop("P04", "A function's display is source text of the same function",
     "The text displayed for a function (a block, or a function built from "
     "operators) evaluates to a function with the same display and the same "
     "behaviour on every argument.",
     ["programs"], "all functions, written or built by operators",
     "no function is displayed or called.", [PT, PA, TK, EX],
     [("Block and token __str__/__repr__", PT), ("treeToString helpers", PA)],
     "round-trip PBT: display, evaluate, display and call again",
     "Random functions are displayed, re-read and compared by display, by parse "
     "tree and by their results on random arguments.")
prop("P05", "RP of a value is source text that evaluates back to it",
     "RP of any value made of Scalars, Patterns, Ranges, nil and Lists of "
     "them is program text that, evaluated, gives an exactly equal value, "
     "whatever characters the texts contain; the -p output format shows the "
     "same text for Lists.",
     ["inputs"], "all values, all characters",
     "no value's representation is read back.", [PT, EX, SC],
     [("__repr__ of each value type", PT), ("REPR", EX), ("EVAL", EX)],
     "round-trip PBT over generated values; every single character enumerated",
     "Values built by the harness from character codes are displayed by RP, "
     "evaluated again and compared with == and with a reference display.")
prop("P06", "Arithmetic on Scalars follows their numeric value",
     "Every arithmetic, rounding, bitwise and elementary-function operator "
     "applied to Scalars uses their numeric value (leading integer or decimal "
     "of the text after white space, 0 if there is none): integers are exact "
     "at any size, other results are correct to floating-point accuracy and "
     "whole-number floats (below 10**16) print as integers. An operation with no real result "
     "(division by zero, even root of a negative, overflow) gives nil and a "
     "nonfatal error, never a wrong number or a crash.",
     ["inputs"], "all pairs of Scalars, numeric or not, any size",
     "arithmetic on the unbounded space of Scalar texts is not touched at all.",
     [EX, PT, OP],
     [("Scalar.toNumber and Scalar.__init__", PT),
      ("ADD .. UNARYROUND methods", EX)],
     "differential PBT against a reference interpreter, exhaustive boundary sweep",
     "Random arithmetic programs and every operator on every pair of a "
     "boundary pool are compared with a reference implementation.")
prop("P07", "Comparisons form consistent orders and chains",
     "Numeric (< = > <= >= !=), string (LT Q GT LE GE NE), length (#< #= #>) "
     "and exact (==) comparisons and CM agree with one total order on Scalars, "
     "compare Lists and Ranges item by item then by length, and give 0 or 1 "
     "for any operands; != and NE are the opposites of = and Q. A chain such "
     "as a<b<c is true exactly if every link is, and evaluates each operand once.",
     ["inputs", "programs"],
     "all pairs and triples of values of every type, chains of any length",
     "no comparison operator is exercised.", [EX, PT],
     [("chained comparison evaluation", "execution.py evaluate/Chain"),
      ("NUMLESS .. LENEQUAL", EX), ("__eq__/__lt__", PT)],
     "differential PBT plus algebraic laws over generated triples",
     "Compared with a reference implementation, and order laws checked without it.")
prop("P08", "Item-wise operators work on Lists exactly as on their items",
     "An operator that works item by item, given a List or Range, gives the "
     "List of its results on the items in order, at any nesting depth; given "
     "two, it pairs items by position, and the longer one's extra "
     "items are kept unchanged; a Scalar paired with a List combines with each item.",
     ["inputs"], "all item-wise operators and all nested operands",
     "no operator is applied to a List.", [EX, OP],
     [("unary/binary item-wise expansion in evaluate", EX),
      ("RVALS/IN_LAMBDA/RANGE_EACH flags", OP)],
     "metamorphic PBT (whole vs items) and " + SWEEP,
     "Results on whole operands are compared with results on the items, and "
     "with a reference implementation.")
prop("P09", "Ranges behave as the sequences of integers they denote",
     "A Range, finite, empty, negative, huge or infinite, gives under every "
     "operator the result of the list of integers it denotes where that is finite (or a "
     "Range where documented), without expanding huge or infinite ones needlessly; "
     "length, indexing, slicing, membership, iteration and equality all agree.",
     ["inputs", "programs"], "all bounds including nil and beyond 64 bits, all operators",
     "the tests check some methods for four fixed ranges.", [PT, EX],
     [("class Range", PT), ("RANGE/RANGETO/INCLRANGE", EX)],
     SWEEP, REF)
prop("P10", "Indexing and slicing pick exactly the named items",
     "Indexing a Scalar, List or Range by an integer picks the item at "
     "that position cyclically (negative from the end), by a Range the "
     "slice it denotes (the sequence being repeated as far as the slice "
     "goes beyond its ends), and by a List of indices the List of those "
     "items, alone or in successive indices; @< @> and H and S take the "
     "stated prefix or suffix. An empty or non-indexable operand gives nil "
     "and a nonfatal error.",
     ["inputs"], "all containers, all index values",
     "only a few fixed indices into Range are tested.", [EX, PT],
     [("AT, LEFTOF, RIGHTOF", EX), ("__getitem__", PT)],
     SWEEP, REF)
prop("P11", "An assignment changes exactly the place it names",
     "Assigning (plainly, compound, by ++ and --, swap, PU PB PO DQ PK and "
     "the like) to a variable, an item, a nested item, a slice or several "
     "places at once changes exactly that place to the right value, leaves everything else as it was, and yields the assigned "
     "place; assigning to what cannot be assigned is a nonfatal error that changes nothing.",
     ["histories"], "all sequences of updates through all kinds of lvalues",
     "no assignment is executed.", [EX, PT],
     [("assign / evaluate on Lval with slices", EX), ("Lval", PT)],
     "model-based stateful PBT: update histories against a reference store",
     "After every update of a random history all variables are printed and "
     "compared with a reference interpreter; frame conditions are checked "
     "exhaustively for a pool of places.")
prop("P12", "Values are independent: no update shows through another name",
     "After a value has been copied by any route (assignment, argument, "
     "return value, element of a List, loop variable, operator result), an "
     "update through one name never changes what any other name or "
     "containing value shows.",
     ["histories"], "all routes of copying and all later in-place updates",
     "no two names are ever bound to one value.", [EX, PT],
     [("copying in assign and functionCall", EX), ("List", PT)],
     "model-based stateful PBT over aliasing routes",
     "Every operator's result and every copying route is followed by random "
     "in-place updates; all names are compared with a reference with value "
     "semantics.")
prop("P13", "Functions: arguments, local variables and history variables",
     "A call binds the arguments to a..e in order and to the argument list "
     "g, gives each call its own local variables (restored on return, also "
     "through recursion to any supported depth), lets outer-scope and "
     "global variables be reached as documented, and yields the function's "
     "last expression (or nil). The history variables $_ $__ $___ hold the "
     "last three values of the current call's statements.",
     ["programs"], "all programs of functions calling each other recursively",
     "no function is called.", [EX, PT],
     [("functionCall and scope stacks", EX), ("Local/outer variable lookup", EX)],
     DIFF + "; textbook functions computed independently",
     "Random mutually calling functions are compared with a reference interpreter; "
     "textbook recursive functions with Python; deep recursion is exercised.")
prop("P14", "Commands run exactly the right code, in order, the right number of times",
     "If/else-if/else, while, till, loop, for-each and loop-over-match commands, with and "
     "without braces and however nested, execute precisely the branch or "
     "number of iterations that the truth values demand, each condition once per test, with "
     "the loop variables as documented; lazy operands are evaluated only when "
     "needed and at most once.",
     ["programs"], "all nestings of commands and all condition values",
     "no command is executed.", [EX, PA],
     [("IFTEST, WHILE, FOREACH, LOOP, LOOPREGEX, TILL", EX)],
     DIFF + " on traces; exhaustive condition values",
     "Programs whose every piece leaves a trace are compared with a reference "
     "interpreter.")
prop("P15", "Meta-operators mean what the operator written out means",
     "$op folds a list as the operator written between its items (by the "
     "operator's associativity, or as a chain), \\$op lists the partial results, op* applies the "
     "operator to each item, and op: assigns the result back, for every operator "
     "that allows it, including folds of no or one item.",
     ["inputs", "programs"], "all operators, list sizes and operand types",
     "no meta-operator is used.", [EX, OP, PA],
     [("FOLD, SCAN, MAPMETA, compound assignment", EX), ("Operator.fold/map", OP)],
     "metamorphic PBT (meta form vs written out) and " + DIFF,
     "Both spellings are run and must agree; sizes 0-3 of every operator are "
     "enumerated.")
prop("P16", "Operators applied to functions build functions",
     "Applying an operator to _, to a function or to several builds a "
     "function which, called on arguments, gives the operator applied to the "
     "operands' values on those arguments, for any composition of operators; "
     "it can be mapped, folded, stored and displayed like any other.",
     ["programs"], "all compositions of operators over functions",
     "no function is built.", [EX, OP],
     [("lambda building in evaluate", EX), ("IN_LAMBDA flags", OP)],
     "metamorphic PBT (compose then call vs call then compose) and " + DIFF,
     "The built function on random arguments must equal the same expression "
     "with the arguments substituted.")
prop("P17", "Mapping, filtering and function-driven operators visit every item in order",
     "The mapping, filtering, zip-mapping, folding, joining, unpacking, and "
     "key-sorting operators call the function exactly once per item (pair, "
     "row, match), in order, with the documented arguments, and assemble exactly those "
     "results; given something that is not a function or not iterable they "
     "give nil and a nonfatal error.",
     ["programs", "inputs"], "all functions (with side effects) and all operands",
     "no function is mapped.", [EX],
     [("MAP, FILTER, MAPENUM, MAPJOIN ..", EX)],
     SWEEP, REF)
prop("P18", "Restructuring operators keep every item and the right shape",
     "Reversing, zipping, unzipping, weaving, unweaving, grouping, chopping, "
     "splitting at indices, enumerating, flattening, repeating, joining "
     "lists, palindromizing, and appending/prepending produce exactly the documented arrangement of the "
     "original items, and undo each other where documented.",
     ["inputs"], "all strings, Lists and Ranges, and all sizes",
     "only append and extend are tested.", [EX, PT],
     [("REVERSE, ZIP, WEAVE, UNWEAVE, GROUP, CHOP, ..", EX)],
     SWEEP + "; round-trip and size laws", REF)
prop("P19", "String operators give exactly the documented text",
     "Concatenation, repetition, joining, splitting, wrapping, trimming, "
     "stripping, case changes, character codes, replacement, transliteration, "
     "replacement at index and removal give exactly the documented text for any "
     "operands, and apply to each string of a List where documented.",
     ["inputs"], "all strings and all replacement/index operands",
     "no string operator is exercised.", [EX, PT],
     [("CAT, STRMUL, JOIN, SPLIT, STRIP, REPLACE, TRANSLITERATE, ..", EX)],
     SWEEP, REF)
prop("P20", "Base conversion round-trips exactly",
     "Converting an integer to any supported base, as digit string or digit "
     "list, and back gives the same integer at any size and sign; digits are canonical; "
     "an unusable base or digit gives nil and a nonfatal error.",
     ["inputs"], "all integers, all bases, all digit strings",
     "no base conversion is exercised.", [EX],
     [("TOBASE, FROMBASE, TODIGITS, FROMDIGITS", EX)],
     SWEEP + "; round-trip laws checked in Python", REF)
prop("P21", "Regex operators find the right matches and set match variables",
     "Matching, full matching, splitting, finding, counting, removing, "
     "replacing and mapping with a Pattern use precisely its left-most "
     "non-overlapping matches with its flags; replacement texts and "
     "functions receive the match and its groups (nil or empty where "
     "unmatched). After a successful match the match variables describe "
     "it, and after a failed one they are unchanged.",
     ["inputs", "programs"], "all Patterns, subjects and replacements",
     "no Pattern is used.", [EX, PT],
     [("setMatchVars, MATCH, REPLACE, MAPREGEX ..", EX), ("class Pattern", PT)],
     SWEEP + "; laws against Python re", REF)
prop("P22", "Sorting, extremes and uniqueness",
     "Sorting (by number, text, or key, either direction) gives a stable ordered "
     "permutation of the items, MX and MN a "
     "greatest and least item, UQ the first of each set of equal items, all by the same "
     "comparison, for any mixture of items.",
     ["inputs"], "all Lists, strings and Ranges, with ties and mixed types",
     "nothing is sorted.", [EX, PT],
     [("SORTNUM, SORTSTRING, SORTKEY.., MAX, MIN, UNIQUE", EX)],
     SWEEP + "; order laws", REF)
prop("P23", "Membership, counting and searching agree",
     "N counts the occurrences, NI says whether there are none, @? gives the "
     "first position, @* all positions, and RM removes all, of the same "
     "item, substring or Pattern match; for any container the "
     "five agree, and each of several items searched for is treated alike.",
     ["inputs"], "all containers and all things sought",
     "no search is exercised.", [EX, PT],
     [("IN, NOTIN, FIND, FINDALL, REMOVE", EX), ("__contains__/count/index", PT)],
     SWEEP + "; agreement laws", REF)
prop("P24", "Output formats",
     "Each output flag (-p -P -s -S -n -l, or none) prints every List and Range, "
     "wherever it is output, exactly in its documented form, at any nesting "
     "depth, and changes nothing but how Lists turn into text. P adds one newline, O "
     "none; the program's final value is printed with a newline unless nil.",
     ["programs", "inputs"], "all values, all flags, all ways of outputting",
     "nothing is ever output.", [PT, EX, CLI],
     [("List.__str__ / outFormat", PT), ("PRINT, OUTPUT", EX), ("listFormat", CLI)],
     SWEEP + "; documented meaning of each flag computed directly", REF)
prop("P25", "The command line runs the given program with the given arguments",
     "The program text comes from -e, -f, -i or the file argument with the same "
     "result each way; options may be spelled and ordered in any way argparse "
     "allows, and only affect what they are for. Each remaining argument, line of input (-r) or "
     "evaluated argument (-x) becomes one argument, in order, and the exit status is 0 for a run "
     "that ended normally and 1 after a fatal error, an interrupt or a missing file.",
     ["inputs", "programs"], "all programs, arguments and option combinations",
     "the command line is never used.", [CLI],
     [("pip(), run(), main()", CLI)],
     DIFF + "; metamorphic re-spelling; real processes and interrupts",
     "Generated programs and arguments are given in all ways and must behave as "
     "the reference says; real processes are compared with in-process runs.")
prop("P26", "The REPL behaves as the program typed line by line",
     "Every complete input at the REPL prompt is executed in the same global state, the value of an "
     "expression is displayed (nil as ()); incomplete input is continued on the next line, and erroneous input is reported "
     "and leaves the session usable with all earlier effects. Definitions, arguments, history "
     "and output formats work as in a program, and the session ends at end of input.",
     ["histories", "programs"], "all sequences of REPL input lines",
     "the REPL is never started.", [CLI, EX, PA],
     [("repl()", CLI), ("IncompleteParse handling", PA)],
     "stateful PBT: generated sessions against a reference loop",
     "Random sessions (valid, broken, incomplete lines, interruptions) are "
     "compared, prompt by prompt, with a reference loop.")
prop("P27", "Warnings are only messages",
     "A nonfatal error never ends the program: the operation yields its documented "
     "fallback (usually nil) and execution continues. Showing warnings (-w) changes only standard "
     "error: standard output and exit status are the same with and without.",
     ["programs"], "all programs, particularly ones full of errors",
     "no error path is run.", ["errors.py", EX, CLI],
     [("ErrorReporter.warn", "errors.py")],
     "metamorphic PBT (with and without -w) over error-heavy programs",
     "Generated programs full of mistakes are run with and without -w, in the "
     "REPL too.")
prop("P28", "V runs program text exactly as if it were written in its place",
     "V of a Scalar runs its text as code in the current scope: the same output, value, "
     "assignments and errors as if the text stood there in the program, at any nesting of V, in functions, loops and "
     "the REPL. Text that cannot be parsed is a fatal error as it would be in a program.",
     ["programs"], "all program texts and all places V may stand",
     "V is never run.", [EX, PA],
     [("EVAL", EX), ("scan/parse re-entry", "scanning.py, parsing.py")],
     "metamorphic PBT: program vs. program with parts under V",
     "Programs are compared with versions of themselves in which statements and "
     "expressions were moved into V of a string literal.")
prop("P29", "Every operator accepts every operand",
     "Applied to operands of any type, every operator and command either "
     "yields a value or reports a nonfatal error and yields its fallback; "
     "only fatal conditions (syntax errors in evaluated text, too deep "
     "recursion) end the program. No operand whatever makes the "
     "interpreter fail internally or lose the rest of the program (though "
     "an operation that needs all items of an infinite Range may never "
     "finish).",
     ["inputs"], "all operators times all combinations of operand types",
     "operators are never run.", [EX, PT],
     [("all operator methods", EX)],
     "fuzzing with an invariant: exhaustive operator x operand-type sweep and "
     "random wild operands",
     "Every operator is applied to every combination of a pool of odd values and "
     "to random ones; the statement after it must still run.")
prop("P30", "Random operations draw from exactly the possible outcomes",
     "r, RR, RC and SH only ever yield possible outcomes (numbers in the half-open interval, "
     "items of the operand, permutations of all its items), every possible outcome can occur, and each draw is made anew. Setting r to "
     "a value makes all later draws repeatable, equal values giving equal draws.",
     ["inputs", "histories"], "all bounds, containers and seeds",
     "nothing random is run.", [EX],
     [("getr, setr, RANDRANGE, RANDCHOICE, SHUFFLE", EX)],
     "PBT of invariants over many draws under generated seeds",
     "For generated operands many draws are made and compared with the set of "
     "possible outcomes; seeded sequences are repeated.")
prop("P31", "Grids, combinations, permutations and products are complete and exact",
     "Coordinate, zero and one grids, identity matrices, combinations, "
     "permutations and Cartesian products have exactly the documented "
     "rows in the documented order, with no repetition or omission, for any sizes; grid rows are "
     "independent.",
     ["inputs"], "all sizes and operands",
     "none is exercised.", [EX],
     [("COORDINATEGRID, ZEROGRID, COMBINATIONS, PERMUTATIONS, CARTESIANPRODUCT", EX)],
     SWEEP + "; counting laws against itertools", REF)
prop("P32", "Truth values, logical operators and selection are consistent",
     "Every value is either true or false by one rule (nil, empty, and zero-like values are false) used by all "
     "conditions, logical operators, filters and selections; | & ? yield "
     "the deciding operand itself and evaluate no operand they "
     "do not need and none twice.",
     ["inputs", "programs"], "all values, all nestings",
     "no logical operator is used.", [EX, PT],
     [("__bool__", PT), ("AND, OR, NOT, IFTE", EX)],
     SWEEP + "; traced evaluation", REF)
prop("P33", "Patterns built from smaller ones match what they should",
     "Patterns built by X, concatenation, alternation, repetition, "
     "Kleene star/plus, capture and flag operators match exactly the strings that the "
     "corresponding combination of the parts matches, keep all flags, and treat "
     "Scalars used in them literally where documented.",
     ["inputs"], "all combinations of Patterns, Scalars and counts",
     "no Pattern is built.", [PT, EX],
     [("Pattern.concat, alternate, repeat, kleene..", PT), ("REGEX, ..", EX)],
     SWEEP + "; language laws against Python re on all short words", REF)
prop("P34", "Preset variables, arguments, WG and program input",
     "Every program starts with the documented values of all preset variables, its arguments in a "
     "to e, g, \\a to \\e and \\g and all else unset; WG restores exactly that global state whatever was changed before. Each reading of q takes "
     "exactly the next whole line of standard input, and gives nil once there is none left.",
     ["histories", "inputs"], "all programs before WG, all inputs and orders of reading",
     "no program is run.", [EX],
     [("WIPEGLOBALS", EX), ("getq", EX)],
     SWEEP + "; table of initial values; fresh-start comparison",
     "Preset variables are changed in every way, wiped and compared with a table; "
     "generated input lines are read by q in all kinds of expressions.")
prop("P35", "Runs are independent and repeatable",
     "What a program without randomness does depends only on its text, options, arguments and input: not "
     "on programs run earlier in the same process (however they ended), on the hash seed, "
     "optimisation level or environment. Within a program, running the same code again from the same "
     "state does the same again: evaluating code never changes the code or its literals.",
     ["histories", "programs"], "all sequences of programs and all repetitions of code",
     "no program is run.", [EX, PT, CLI],
     [("ProgramState, List.outFormat", EX), ("operator table (shared objects)", OP)],
     "metamorphic PBT: repetition within a program, between programs and across "
     "processes",
     "Programs are repeated after other programs, within themselves and in other "
     "processes with other hash seeds and optimisation levels.")
