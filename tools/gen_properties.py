"""Writes /verif/properties.jsonl (kept as a script so that wording and anchors are edited in one place)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text},
         "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "hook_needed": None}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    assert len(title) <= 80, title
    P.append(d)


PARSER = "oelint_parser/parser.py"
STASH = "oelint_parser/cls_stash.py"
ITEM = "oelint_parser/cls_item.py"
INL = "oelint_parser/inlinerep.py"
CONST = "oelint_parser/constants.py"
RPL = "oelint_parser/rpl_regex.py"

prop("C01", "Parsing loses no text and reports true line numbers",
     "Adding a text file yields items whose unprocessed raw texts, concatenated in order, are exactly the file's text. "
     "Each item's raw text consists of whole lines, and its in-file line is the 1-based line on which that text starts. "
     "For a file that includes nothing and appends to nothing, the overall line equals the in-file line, and the items returned by adding the file are exactly the items then found in the stash for it.",
     ["inputs"], "every text file (LF line ends), whatever its mix of continuations, functions, python blocks, comments, blanks, inline blocks, garbage and truncated last statement",
     "Tests look at ten fixed recipes and never compare the reassembled text; a dropped, duplicated or glued line only shows for particular neighbour combinations of multi-line constructs.",
     [PARSER, ITEM], [("chunking of lines into statements", "parser.py prepare_lines / prepare_lines_subparser"), ("line counters", "parser.py prepare_lines num/length")],
     observe=["Item.RealRaw", "Item.InFileLine", "Item.Line"])

prop("C02", "Parsing and querying never fail or hang on any text",
     "For any text content, adding the file, finalizing, querying, reading every public attribute, splitting into items and expanding variables and terms all return normally. "
     "No content makes them raise an exception or run forever.",
     ["inputs"], "every text over the syntax-relevant characters and every sequence of recipe line fragments, complete or cut off anywhere",
     "Tests use well-formed recipes; the failures are in truncated or odd inputs (a continuation on the last line, an unterminated function, unbalanced inline blocks).",
     [PARSER, STASH, ITEM, INL], [("line iterator handling at end of file", "parser.py prepare_lines_subparser"), ("inline block replacement loop", "parser.py while '${@'"), ("expansion recursion guard", "cls_stash.py ExpandTerm seen")])

prop("C03", "Each directive becomes one item of the right kind, whatever surrounds it",
     "Every well-formed directive (include/require, include_all, inherit, inherit_defer, INHERIT, export, addtask, deltask, unset, flag assignment, EXPORT_FUNCTIONS, addpylib, addfragments, python def, comment block) becomes exactly one item of the matching kind whose fields carry the names, values, flags and order constraints as written. "
     "This holds in any sequence of statements: neighbours never change, split, merge or swallow a directive, except that directly consecutive comment lines form one comment block and indented or blank lines following a def belong to it.",
     ["programs"], "every sequence of well-formed statements",
     "Tests check each directive once, mostly in a one-line file; interaction between neighbouring statements (def, comment, function, continuation) is sampled by a single recipe.",
     [PARSER, ITEM], [("ordered statement patterns", "parser.py get_items _order"), ("block termination", "parser.py prepare_lines_subparser iterate"), ("item classes", "cls_item.py")])

prop("C04", "Variable assignments decompose exactly into name, overrides, operator, value",
     "For every well-formed assignment (upper-case base name, lower-case or package overrides, either override style, any valid operator and spacing, quoted value), the item reports the written base name, override list, operator text and value, and the complete name re-joins to what was written. "
     "The append/prepend/remove predicates, class override, list of append operations and the name without modifiers all follow from those parts alone.",
     ["inputs"], "every combination of base name, override list, override style, operator, spacing and value",
     "Tests check about a dozen literal assignments; combinations of overrides with dashes, package placeholders, plus signs and unusual spacing are not covered.",
     [ITEM, PARSER], [("assignment pattern", "parser.py __regex_var"), ("modifier extraction", "cls_item.py Item.extract_sub"), ("predicates", "cls_item.py Variable")])

prop("C05", "Functions report their name, flags, overrides and complete body",
     "Every well-formed task or function definition (optional python and/or fakeroot prefix, any valid name, overrides in either style, balanced body) becomes one function item with the written name, the python and fakeroot flags exactly as written, its append/prepend/remove and class overrides split off, and body lines equal to the text between the opening and closing brace (common indentation removed). "
     "Statements before and after it are unaffected.",
     ["programs"], "every combination of prefix, function name, overrides, spacing and balanced multi-line body, followed or preceded by other statements",
     "Tests check a handful of functions with plain names; names that start with a keyword or contain braces, and nested braces in bodies, are not sampled.",
     [PARSER, ITEM], [("function pattern and brace counting", "parser.py __regex_func / iterate"), ("name split", "cls_item.py extract_sub_func"), ("body extraction", "cls_item.py Function")])

prop("C06", "Override syntax detection is sticky within a file and never leaks out",
     "In a file parsed without forcing the new syntax, items use '_' as override delimiter up to the first variable or function written with ':' overrides, and ':' from that item on. "
     "With the new syntax forced, every item uses ':'. "
     "Detection in one file never changes the items of another file or of another stash.",
     ["programs", "configurations"], "every sequence of old-style, new-style and neutral statements over one or several files, with the stash option on or off",
     "One test checks a file whose first line is new style; order, files included in between and several stashes are not explored.",
     [PARSER, ITEM, STASH], [("latch", "parser.py override_syntax_new"), ("delimiter", "cls_item.py OverrideDelimiter")])

prop("C07", "Known inline calls are replaced by the selected branch",
     "An inline block that consists of one call to a supported helper (contains, contains_any, filter, conditional, ifelse, any/all_distro_features, vartrue, less_or_equal, version_less_or_equal, both_contain, getVar) with quoted arguments is replaced in the value by the argument of the 'true' outcome, or of the 'false' outcome (the empty string for filter and both_contain, which have no such argument) if the stash was created with negative inline expansion. "
     "Text around the block, other blocks in the same value, and the unprocessed raw text stay unchanged.",
     ["inputs", "configurations"], "every supported helper, argument values, quoting, spacing, surrounding text, number of blocks, and both branch selections",
     "Tests check one literal per helper and branch; argument contents, quoting, spacing, and several blocks per line are not covered.",
     [INL, PARSER], [("helper emulation", "inlinerep.py inlinerep"), ("scope detection and replacement", "parser.py get_full_scope, prepare_lines_subparser")])

prop("C08", "Inline blocks that cannot be resolved come back verbatim on expansion",
     "For a value containing inline blocks the library cannot resolve, expanding the variable or a term that refers to it gives back these blocks verbatim and in place (references inside them expanded), with resolved blocks replaced by their branch. "
     "No internal placeholder ever appears in an expanded value.",
     ["inputs"], "every arrangement of resolvable and unresolvable blocks, repeated or not, plain text and references, under every assignment operator",
     "Tests use one or two distinct unknown blocks and plain assignments only; repeated blocks, mixtures with resolved blocks and append operators are not covered.",
     [PARSER, STASH], [("placeholder", "parser.py INLINE_BLOCK"), ("restoring", "cls_stash.py _ReverseInlineBlock, ExpandTerm, ExpandVar")])

prop("C09", "Filters return exactly the matching items, once, ordered by line",
     "A query by file, kind, attribute and attribute value returns exactly the items that satisfy every given criterion (any of the listed alternatives within one criterion), each once, ordered by line; an omitted criterion does not restrict. "
     "Querying the stash, reducing a given list into a copy and reducing a result in place agree; only the in-place form changes the list it is applied to.",
     ["inputs", "histories"], "every combination of file, kind(s), attribute(s), value(s) and link setting, in every container type, and every sequence of successive reductions",
     "Tests use about five filter combinations on one recipe.",
     [STASH, ITEM], [("filter pipeline", "cls_stash.py Reduce / GetItemsFor / StashList.reduce"), ("attribute constants", "cls_item.py ATTR_*")])

prop("C10", "Queries are never stale",
     "After any sequence of adding files, appending items, removing items and finalizing, every query answers as if it were the first query ever made on a stash with that history. "
     "Which queries were asked earlier, when, and how often makes no difference.",
     ["histories"], "every sequence of stash operations with any queries interleaved (constants and files on disk unchanged meanwhile)",
     "Tests query once at the end; staleness needs the sequence query, change, query.",
     [STASH], [("cache invalidation", "cls_stash.py _clear_cached"), ("memoized queries", "cls_stash.py functools.cache methods")],
     state=[("memo tables", "answers kept per stash and arguments", "cls_stash.py @functools.cache")])

prop("C11", "After finalizing, a file sees exactly what it transitively includes",
     "After finalizing, the items found for a file are exactly those of the file itself and of all files reachable from it through include, require, inherit and matching bbappend links, and an item counts its own file and every file that reaches it, and no other, as a file it is included from. "
     "This holds for any include graph, with shared, deep or cyclic includes, for any number of recipes using the same files, for any order of adding them, and finalizing again changes nothing.",
     ["programs", "histories"], "every graph of include/inherit links between recipes, includes, classes and bbappends, and every order of adding the root files",
     "Tests check two fixed small graphs in one order; depth, sharing, cycles and late-added appends are not explored.",
     [STASH, PARSER], [("link map", "cls_stash.py AddFile forcedLink"), ("closure", "cls_stash.py Finalize"), ("class de-duplication", "cls_stash.py __seen_classes")],
     state=[("link map", "file to files it pulls in", "cls_stash.py __map")])

prop("C12", "A bbappend applies to exactly the recipes its file name selects",
     "A bbappend is linked to a recipe if and only if its name without extension equals the recipe's name without extension, where '%' matches any rest of the name and all other characters match literally. "
     "The result does not depend on the order in which recipes and bbappends are added, and exactly the bbappends matching no added recipe are reported as lone.",
     ["inputs", "histories"], "every set of recipe and bbappend file names and every order of adding them",
     "Tests use one matching pair in both orders; near-miss names (prefixes, dots, plus signs, wildcards in the middle) are not covered.",
     [STASH], [("name matching in both orders", "cls_stash.py AddFile bbappend branches"), ("lone appends", "cls_stash.py GetLoneAppends")])

prop("C13", "Line order is evaluation order across includes and bbappends",
     "For a recipe with its includes, classes and bbappends in one stash, sorting its items by line gives the order in which the build system evaluates them: an included file's items come directly after the include statement and before the statement that follows it, at any nesting depth, and every bbappend's items come after all items of the recipe and its includes. "
     "Order inside a file is kept, no two items of such a unit share a line, and several bbappends keep the order in which they were added.",
     ["programs", "histories"], "every recipe built from statements and nested includes or inherits, with zero to two bbappends having includes of their own, added before or after the recipe",
     "Tests only check the last line number of a recipe plus bbappend without includes.",
     [PARSER, STASH], [("include line offsets", "parser.py includeOffset / lineOffset"), ("bbappend shift", "cls_stash.py AddFile")])

prop("C14", "Expanded variables carry the effective value of the assignment history",
     "For any sequence of assignments to a variable in one recipe, the expanded value is the list of words obtained by applying set and immediate-set, default (only if unset), weak default (only if nothing else set it), the space-separated and direct append/prepend operators and unset in order, then the append and prepend overrides in order, then dropping every word named by a remove override. "
     "Spacing around operators, override style, and statements about other variables or about flags do not matter, and a variable with a further override is kept apart under its own name.",
     ["histories"], "every sequence of assignment, append, prepend, remove and unset statements on a small set of variables, in both override styles and with any operator spacing",
     "Tests check two short fixed sequences.",
     [STASH, ITEM], [("three-pass evaluation", "cls_stash.py ExpandVar"), ("operators", "cls_item.py Variable.VarOp / IsImmediateModify")])

prop("C15", "Term expansion substitutes every known reference and always terminates",
     "Expanding a term replaces every reference to a variable assigned in the file or its linked files by the recursively expanded value of its first non-appending assignment, then known base-set variables, then the name, base name, version, file and directory facts of the file, and leaves all other references and all text as they are. "
     "Names to be spared stay unexpanded at every depth. "
     "Expansion terminates for every reference graph, cyclic ones included, and never leaves a reference to a variable that has such an assignment.",
     ["inputs", "programs"], "every reference graph over a few variables, defined once or several times, in the file or in includes, with any spare list",
     "Tests check chains of length two or three; cycles, diamonds, spare names at depth and redefinitions are not covered.",
     [STASH], [("recursive expansion with memo", "cls_stash.py ExpandTerm")])

prop("C16", "Results are deterministic",
     "The same files added in the same order give identical query results (including order), expansions, file lists and fingerprint in every run and process. "
     "Nothing depends on hash seeds, object identity, memory layout, environment variables, locale or (with absolute paths) the working directory.",
     ["configurations", "histories"], "every hash order of strings and of items the runtime may choose, every environment of the process",
     "One test run sees one arbitrary hash order, and the tests compare sorted or single results.",
     [STASH, ITEM], [("set-based de-duplication and sorting", "cls_stash.py Reduce, GetConfFiles, GetLinksForFile"), ("fingerprint input", "cls_item.py __repr__")])

prop("C17", "The fingerprint identifies the stash's content and options",
     "Two stashes have the same fingerprint when they were built by the same additions, appends and removals with the same options, whatever was queried in between. "
     "They have different fingerprints when the parse-relevant options differ or the added, appended or removed items differ in any way visible through the items.",
     ["histories", "configurations"], "every pair of build histories that differ in one file content, path, order, option, appended or removed item",
     "No test looks at the fingerprint.",
     [STASH, ITEM], [("running hash", "cls_stash.py __fingerprint")])

prop("C18", "Constant edits compose exactly and never alias caller data",
     "Adding constants extends lists and introduces new keys, removing constants drops the named list members or keys, overriding replaces values, and everything else in the database stays as it was; each getter and path lookup reflects the result of the whole edit sequence, and an unknown path gives an empty dictionary. "
     "The caller's dictionaries are never modified, later changes to them do not reach the database, and separately created databases never influence each other.",
     ["histories"], "every sequence of add, remove, override and lookup over a small tree of lists and dictionaries, with argument objects reused or changed by the caller afterwards",
     "Tests apply each operation once to one list.",
     [CONST], [("dict_merge in three flavours", "constants.py AddConstants/RemoveConstants/OverrideConstants"), ("lookup", "constants.py GetByPath")])

prop("C19", "Includes and classes resolve to the local file first, then the file's own layer",
     "An include resolves to the file of that name relative to the including file's directory, else relative to the root of the nearest enclosing layer, else to nothing; inherited classes resolve the same way below the class, recipe-class and global-class folders, in that order (no recipe-class folder for global INHERIT). "
     "Only the resolved file is parsed and reported, ignored includes and classes are not parsed, and an unresolvable name leaves the rest of the file intact.",
     ["configurations", "inputs"], "every placement of candidate files over local, layer, nested-layer and outside directories, every statement form, and every ignore list",
     "Tests use one fixed layer layout in which each name has a single candidate.",
     [STASH, PARSER], [("search", "cls_stash.py FindLocalOrLayer, GetLayerRoot"), ("class locations and ignore lists", "parser.py inherit/include handling")])

prop("C20", "Source URIs split into scheme, location and options",
     "For every source URI without query or fragment part, the components are the scheme, the host and path without options, and a map of every 'key=value' option with the value complete. "
     "Known mirror prefixes are replaced first, option order does not matter, and malformed input gives empty components instead of an error.",
     ["inputs"], "every combination of scheme, host, path and option list, including values with special characters",
     "One well-formed and one malformed URI are tested.",
     [STASH], [("splitting", "cls_stash.py GetScrComponents"), ("mirrors", "cls_stash.py _replace_with_known_mirrors")])

prop("C21", "Recipe name, base name and version follow from the file name",
     "For a recipe file the guessed name is the part before the first underscore, the version is the part between first and second underscore (none if absent), and the base name is the name without a 'nativesdk-' prefix and without a '-native' or '-cross' suffix. "
     "The same facts are used for PN, BPN, PV, BP and P in expansions, with version 1.0 if the name has none, unless the recipe assigns them.",
     ["inputs"], "every file name assembled from prefix, stem, suffix, version parts, extension and directory",
     "Tests check five version examples and one native recipe.",
     [STASH], [("guessing", "cls_stash.py GuessRecipeName, GuessBaseRecipeName, GuessRecipeVersion"), ("expansion", "cls_stash.py ExpandTerm")])

prop("C22", "Package, resource and recipe-type facts follow from the parsed recipe",
     "Valid package names are the standard derived packages of the recipe plus every package listed in PACKAGES and PACKAGE_BEFORE_PN (with the name placeholder resolved, kept, or stripped as requested); named resources are the recipe name plus every 'name' option in SRC_URI; a name is a dynamic package exactly if a PACKAGES_DYNAMIC pattern matches it. "
     "A recipe is an image exactly if it or a linked file inherits a known image class or sets a known image variable, a packagegroup exactly if one inherits packagegroup, and its files are those matching the pattern one folder below a file that sets SRC_URI or that such a file includes.",
     ["programs"], "every combination of the statements these facts are derived from, in the recipe, an include, a class or a bbappend",
     "Tests have one positive image, one packagegroup and one dynamic-packages recipe.",
     [STASH], [("derivations", "cls_stash.py GetValidPackageNames, GetValidNamedResources, IsImage, IsPackageGroup, GetPackagesDynamic, IsDynamicPackage, GetFiles")])

prop("C23", "Stashes and unrelated recipes do not influence each other",
     "Whatever is done with one stash, including different options, queries, additions and removals interleaved in any order, leaves every answer of another stash unchanged. "
     "Within one stash, adding recipes that share no file or name pattern with a recipe leaves that recipe's items, line numbers, links and expansions unchanged.",
     ["histories"], "every interleaving of operations on two stashes, and every order of adding unrelated recipes",
     "Tests use one stash at a time; leakage through shared caches or state needs two.",
     [STASH, PARSER], [("per-stash state and shared memo tables", "cls_stash.py __init__, functools.cache keyed by stash")])

prop("C24", "Result lists behave like lists and never write through to the stash",
     "A result list supports append, extend, insert, remove, pop, item assignment, in-place and plain concatenation, slicing, copying, iteration, length and membership with ordinary list semantics, append and remove also taking several items at once. "
     "Changing a result list, or the list, set or mapping any other query returned, never changes the stash or another result.",
     ["histories"], "every sequence of list operations applied to query results",
     "Tests only use append, remove and reduce indirectly.",
     [STASH], [("list wrapper", "cls_stash.py Stash.StashList")])

prop("C25", "A timed-out pattern match is absorbed, wherever it happens",
     "If any single pattern operation, or every one, exceeds its time limit during parsing, querying or expansion, the call still returns normally, with that operation treated as 'no match' (or its documented default). "
     "Without a timeout the guarded operations give the same result as the plain ones.",
     ["fault_sequences"], "every single pattern operation of every scenario timing out, and all of them timing out",
     "No test makes an operation time out; the timeout is five seconds.",
     [RPL, PARSER, STASH, INL, ITEM], [("timeout wrapper", "rpl_regex.py RegexRpl")])

prop("C26", "Handling a recipe is passive",
     "Parsing, querying and expanding any recipe content never executes code or commands taken from it, never writes, creates or deletes files, never opens network connections and never changes the working directory or environment. "
     "A quiet stash prints nothing.",
     ["inputs", "programs"], "every statement kind and inline form, with hostile contents, through every public operation",
     "No test watches side effects.",
     [PARSER, STASH, INL], [("emulation instead of evaluation", "inlinerep.py"), ("read-only file access", "parser.py prepare_lines, cls_stash.py ExpandTerm")])

prop("C27", "Values split into exactly their words",
     "The items of a variable are the whitespace-separated words of its value, with quotes and line continuations removed, in order, whatever the layout over several lines; hex escapes stay part of their word. "
     "With version handling, exactly the parenthesised version constraints are left out. "
     "Multi-line detection is true exactly if the assignment is spread over several lines.",
     ["inputs"], "every list of words laid out with every mix of spaces, tabs, continuation lines and version constraints",
     "Tests check two layouts and one escape.",
     [ITEM, PARSER], [("safe split", "cls_item.py _safe_linesplit, Variable.get_items"), ("continuation joining", "parser.py iterate / cnt")])

prop("C28", "Distros and machines of a file's layer become known overrides",
     "After adding a file that lies in a layer, every distro and machine configuration of that layer, and of no other directory, is among the known distros and machines, and stays known. "
     "A variable or function's distro entry is its first override that is a known distro, and its machine entry is its first override that is neither a modifier, a class override nor the word 'machine'.",
     ["configurations", "inputs"], "every layer layout with distro and machine configurations, file depths, order of adding files, and override list",
     "Tests check one layer and single overrides.",
     [STASH, ITEM, CONST], [("layer scan", "cls_stash.py AddDistroMachineFromLayer"), ("entries", "cls_item.py GetDistroEntry, GetMachineEntry")])

prop("C29", "A file is the same file however its path is written, and goes where it is told",
     "Adding or including a file under any spelling of its path (relative to the working directory, with '.', '..' or doubled separators) gives the same items, lines, links, classification, expansions and fingerprint as under its plain absolute path, which is the origin of its items; whether an item is from a class or a bbappend follows from that path. "
     "With absolute paths, the working directory does not matter. "
     "A line offset shifts the overall lines of the file and of everything it includes, not the in-file lines, and a forced link makes the file found for, and included from, the file it is linked to, whichever is added first.",
     ["inputs", "configurations", "histories"], "every sequence of files to add, path spelling, include spelling (cycles included), working directory, line offset and forced link",
     "Tests add every file once under one absolute path; a second spelling of the same file, or an include that leads back under another name, is never tried.",
     [STASH, PARSER], [("path normalisation", "cls_stash.py AddFile abspath, parser.py get_items"), ("cycle and duplicate detection by path", "cls_stash.py __seen_files, __seen_classes, __active_files"), ("offset and link", "cls_stash.py AddFile lineOffset, forcedLink")])

prop("C30", "Editing a stash is like editing the text of its files",
     "After appending items, exactly these are found in addition; after removing items, exactly these are gone, and all others stay the same objects with the same lines, whether several items are given at once or one by one, in which kind of list, and in which order. "
     "Every query and expansion then answers as for files whose text had always contained, or never contained, the statements concerned (blank lines in their place); appending and removing the same items cancel out.",
     ["histories"], "every text of distinct statements, file of a recipe with include and bbappend, sub-set of statements to remove or append, and way of passing them",
     "Tests remove and append one item and look at the item list only; the effect on the other queries is not checked.",
     [STASH], [("editing", "cls_stash.py Stash.Append, Stash.Remove"), ("queries derived from the item list", "cls_stash.py Reduce, ExpandVar, ExpandTerm, GetLinksForFile")])

prop("C31", "A file that cannot be read spoils nothing else",
     "Adding a file raises an error if that file, or one it includes or inherits for the first time, cannot be read (reading fails, or the bytes are not text), and succeeds otherwise. "
     "A failed addition does not affect the others: every file added successfully before or afterwards consists of all its items and those of all files it links to, with their values, and so does the failed one once it is added again and readable, including the classes and bbappends concerned. "
     "In expansions a file that cannot be read counts as empty. A constant database that cannot be read or is damaged in any way gives empty constants and a message, not an error.",
     ["fault_sequences"], "every order of additions with an unreadable set of files during one of them and every way of repeating it; every state of files read by terms; every truncation and single damaged byte of a constant database",
     "Tests never make a read fail, let alone in the middle of an addition or with files that are shared and read only once.",
     [STASH, PARSER, CONST], [("bookkeeping of seen files", "cls_stash.py AddFile"), ("files read in expansions", "cls_stash.py ExpandTerm"), ("loading of the database", "constants.py __load_db")])

prop("C32", "Answers follow the constants in force",
     "Every query, expansion and item attribute that depends on the constants (image classes and variables, mirrors, base values, known distros) answers for the constants in force when asked, whatever was asked under other constants before. "
     "What is decided while parsing (names of functions with overrides, ignored classes and includes) follows the constants in force when the file was added; later edits of the constants do not change items that are already parsed.",
     ["histories"], "every sequence of edits of the constants, additions of files and finalizing, and step from which on questions are asked",
     "Tests change constants once before anything is asked; a question, an edit and the same question again do not occur.",
     [STASH, ITEM, CONST], [("memoised queries that read constants", "cls_stash.py IsImage, ExpandTerm, ExpandVar, GetPackagesDynamic, IsDynamicPackage"), ("constants read while parsing", "parser.py get_items, cls_stash.py AddFile"), ("editing", "constants.py AddConstants, RemoveConstants, OverrideConstants")])

prop("C33", "An edited item is what it now says it is",
     "Setting a settable attribute of an item (value, body, raw text, unprocessed text, line) changes that attribute and what follows from it (bare value, words, stripped body, multi-line), and no other attribute and no other item. "
     "From then on every query, filter and expansion, of every stash that holds the item, answers as if the files had been written that way (two items that exchange their lines: as if their statements were exchanged), whatever was asked before.",
     ["histories"], "every sequence of edits of the items of a recipe with include and bbappend, and step from which on questions are asked",
     "Tests set an attribute and read it back; the effect on queries that were already answered is not checked.",
     [STASH, ITEM], [("setters", "cls_item.py Item.Line, Item.Raw, Item.RealRaw, Variable.VarValue, Function.FuncBody"), ("memoised queries over items", "cls_stash.py GetItemsFor, __get_items_by_attribute, ExpandVar, ExpandTerm")])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as o:
    for d in P:
        o.write(json.dumps(d) + "\n")
print(len(P))
