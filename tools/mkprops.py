#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (kept as the single source for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or [], hook_needed=None)))

LH = "collections/implementation/list_helper.go"
DH = "collections/implementation/dict_helper.go"
BH = "collections/implementation/base_helper.go"
GEN = ["collections/implementation/generic.go", "json/generated_impl.go", "yaml/generated_impl.go", "hcl/generated_impl.go", "xml/generated_impl.go"]

prop("C01", "Indexed reads of a list are total and exact",
 "Reading one index of a list (of any supported format) yields exactly the element stored there, counting from the end when the index is negative, and nil whenever the position does not exist; it never fails. Reading several indexes yields a list of the same format whose k-th element is what reading the k-th index alone yields, reading none yields nil, and no read changes the list.",
 ["inputs"], "all lists, all (64-bit) indexes, all numbers of indexes, all formats",
 "Tests read a handful of positions of short lists; the claim is over every length, index and format.",
 [LH]+GEN, [("ListHelper.GetIndexes", LH), ("Get/First/Last of each format", GEN[1])], ["Get", "First", "Last"])

prop("C02", "Setting a list index keeps every other element",
 "Setting index i>=0 of a list yields a list of length max(old length, i+1) which holds the value at i, every previous element at its previous position, and nil in the positions that were added. A negative index is refused with an error and changes nothing.",
 ["inputs"], "all lists, all indexes, all scalar or already generic values, all formats",
 "Tests set two or three positions; growth by any amount and the frame (all other elements) quantify over every length and index.",
 [LH, BH]+GEN, [("ListHelper.SetIndex", LH), ("ListHelper.Add", LH)], ["Set"])

prop("C03", "Append, prepend, reverse and clone are exact sequence operations",
 "Append yields the old elements followed by the new ones, Prepend the new ones followed by the old, Reverse the elements in exactly the opposite order, and Clone the same elements in the same order, each as a list of the same format. The elements of the source list are left as they were, and a reversed or cloned list shares no storage with its source, so that later changes of one never show in the other.",
 ["inputs"], "all lists and all appended values, all formats",
 "Tests compare the printed form of a few lists; they do not quantify over lengths nor check storage sharing.",
 [LH, BH]+GEN, [("ListHelper.Add", LH), ("ListHelper.Reverse", LH), ("ListHelper.Clone", LH)], ["Append", "Prepend", "Reverse", "Clone"])

prop("C04", "List filters keep exactly the qualifying elements, in order",
 "Unique keeps the first occurrence of every distinct element (elements compare by their text), Without drops exactly the elements equal to one of its arguments, Remove drops exactly the given (possibly negative) positions, RemoveNil exactly the nil elements, RemoveEmpty exactly nil, empty-text elements and empty lists, and Intersect keeps the distinct elements of the list that equal one of the arguments. The kept elements stay in their original relative order, are unchanged, and the source list is not modified.",
 ["inputs"], "all lists, all arguments, all formats",
 "Tests filter a few literal lists; the exactness claim ranges over every element of every list.",
 [LH]+GEN, [("Unique/Intersect/Remove/RemoveEmpty/RemoveNil/Without", LH)], ["Unique", "Without", "Remove", "RemoveNil", "RemoveEmpty", "Intersect", "Union", "Pop"])

prop("C05", "List membership and search agree with the elements",
 "A list contains some values exactly when it is not empty and each of the values equals at least one of its elements, and searching a value yields exactly the increasing list of all positions holding an equal element. Loose comparison is by text; strict comparison requires same type and value.",
 ["inputs"], "all lists and all searched scalar values, strict or loose, all formats",
 "Tests look up a few values in short lists.",
 [LH]+GEN, [("ListHelper.Contains", LH), ("ListHelper.Find", LH)], ["Contains", "Has", "ContainsStrict", "HasStrict", "Find", "FindStrict"])

prop("C06", "Dictionary reads, writes and defaults only concern their key",
 "After setting a key of a dictionary, reading it gives the value that was set and every other entry is exactly as before; reading an absent key gives nil, Has is true exactly when the dictionary is not empty and holds all the given keys, and Default gives the stored value (even nil) when the key exists and the fallback otherwise. Keys of any type are addressed by their text, reads never modify the dictionary, and reading several keys yields the list of the individual readings in order.",
 ["inputs"], "all dictionaries, keys and scalar or generic values, all formats",
 "Tests use small literal dictionaries; frame and key identity quantify over all keys.",
 [DH]+GEN, [("DictHelper.Get/Set/Has/Default", DH)], ["Get", "Set", "Has", "Default"])

prop("C07", "Dictionary removals remove exactly the named entries",
 "Flush with keys and Pop remove exactly the entries named, Flush without keys removes all entries, and Delete removes the named entries but stops with an error at the first key that does not exist; every other entry is kept unchanged. Pop returns what reading the same keys before the removal gives, and Omit returns a new dictionary without the named entries and leaves its source unchanged.",
 ["inputs"], "all dictionaries, all key lists (including repeated and missing keys), all formats",
 "Tests delete one or two keys of a fixed dictionary.",
 [DH]+GEN, [("DictHelper.delete/Delete/Flush/Pop/Omit", DH)], ["Delete", "Flush", "Pop", "Omit"])

prop("C08", "Keys and values of a dictionary come out in sorted key order",
 "The keys of a dictionary are listed exactly once each in ascending text order, whatever the internal map order, and its values are listed in the order of those keys. Listing keys or values never modifies the dictionary.",
 ["inputs", "schedules"], "all dictionaries, all map iteration orders, all formats",
 "Go randomises map order: a test sees one order per run and a few keys.",
 [DH, "collections/string_array.go"]+GEN, [("DictHelper.KeysAsString/GetKeys/GetValues", DH), ("StringArray.Sorted", "collections/string_array.go")], ["KeysAsString", "GetKeys", "GetValues"])

prop("C09", "Merging dictionaries gives priority to the left, deeply",
 "After merging sources into a dictionary, every key of the target or of a source is present; a key keeps the value of the leftmost dictionary that has it, except that when both values are dictionaries they are themselves merged by the same rule. The source dictionaries are never modified by a merge, not even in their nested dictionaries.",
 ["inputs"], "all targets and source lists, any nesting, all formats",
 "Tests merge two or three fixed dictionaries and look at the result only, not at what happened to the sources.",
 [DH, "utils/reflect.go"]+GEN, [("DictHelper.Merge/deepMerge", DH), ("MergeDictionaries", "utils/reflect.go")], ["Merge", "MergeDictionaries"])

prop("C10", "A cloned dictionary is independent of its source",
 "Cloning a dictionary yields a dictionary of the same format holding all its entries (or exactly the requested keys), nested dictionaries and lists being copied as well. No later change made through the clone, at any depth, is visible in the source.",
 ["inputs"], "all dictionaries, any nesting, all formats",
 "Tests clone one dictionary and change a top-level key.",
 [DH, LH]+GEN, [("DictHelper.Clone", DH), ("ListHelper.Clone", LH)], ["Clone"])

prop("C11", "Collections stay in their own format",
 "Every list or dictionary operation that builds a collection builds one of the same format (json, yaml, hcl, xml or base) as the collection it was called on, and creation with a size gives that many nil elements. Conversion hands scalars and collections that are already generic through untouched.",
 ["inputs"], "all formats, all sizes and all values",
 "Tests exist per format but compare a few values; a cross-format slip in one generated file only shows on the untested operation.",
 [BH]+GEN, [("BaseHelper.CreateList/CreateDictionary/TryConvert", BH), ("format helpers", GEN[1])], ["Create", "CreateList", "CreateDict", "Convert"])

prop("C12", "Numbers read from JSON or XML keep their value",
 "Once a JSON or XML document is decoded, a decoded number with an integral value that an integer can hold becomes the integer of exactly that value and every other decoded number stays the float it was. No decoded number ever changes its numeric value, whatever its magnitude and however deep it is in the document.",
 ["inputs"], "all float64 values, at any depth",
 "Tests read small integers; conversion errors appear only at magnitudes beyond the integer range.",
 ["json/json.go", "xml/xml.go"], [("transformElement", "json/json.go"), ("transformElement", "xml/xml.go")], ["json.Unmarshal", "xml.Unmarshal"])

prop("C13", "Arithmetic results never change value when simplified to integers",
 "The arithmetic template functions return the integer of exactly the computed value when that value is integral and representable as a 64-bit integer, and the computed float unchanged otherwise (including infinities, NaN and magnitudes beyond 64 bits).",
 ["inputs"], "all float64 values",
 "Tests compute with small numbers.",
 ["template/math_utilities.go"], [("simplify", "template/math_utilities.go"), ("execute/process", "template/math_utilities.go")], ["add", "mul", "div", "sub", "mod", "pow", "to", "until"])

prop("C14", "Bit operations fold over all their arguments",
 "Bitwise or/and/xor/clear return exactly the 64-bit fold of all their integer arguments from left to right, and shifts shift by the full unsigned amount. An argument that is not an integer makes the function return an error rather than fail or a wrong number.",
 ["inputs"], "all 64-bit integers, any number of arguments",
 "Tests use three small constants.",
 ["template/math_bits.go", "template/math_utilities.go"], [("bitwiseOr/And/Xor/Clear, shifts", "template/math_bits.go")], ["bor", "band", "bxor", "bclear", "lshift", "rshift"])

prop("C15", "Template functions turn failures into errors",
 "The arithmetic, bitwise, indexing and slicing template functions never let a failure escape as a panic: whatever their arguments are, they return either a value or an error. When no failure occurs the value is returned with no error.",
 ["inputs"], "all argument values",
 "Tests provoke two or three failures; the guarantee is over every argument.",
 ["template/math_base.go", "template/math_bits.go", "template/math_utilities.go", "template/slice.go"], [("deferred trapError", "template/math_base.go")], ["all functions of the table"])

prop("C16", "Element selection and slicing follow the index rules",
 "Slicing a list by one index gives that element (negative counts from the end), slicing by a begin and an end gives exactly the elements of that range in order, or in reverse order when the end precedes the begin, indexes beyond the limits being clipped without error. Safe indexing returns the element inside the bounds and the given default outside, and none of them modifies its argument.",
 ["inputs"], "all lists, strings and indexes",
 "Tests slice one list and one string with a dozen index pairs.",
 ["template/slice.go"], [("sliceList/selectElement/safeIndex", "template/slice.go")], ["slice", "extract", "safeIndex"])

prop("C17", "A failed rendering leaves the document unchanged",
 "When rendering a document fails and strict error checking does not apply to it, the result is exactly the original document, reported as unchanged and without error; when strict checking applies (strict mode, an explicit marker in the document or a template file extension) the error is reported. A document without any template code, or with rendering disabled, is never reported as changed.",
 ["inputs", "configurations", "fault_sequences"], "all documents, options, and parse/execution failures",
 "Tests render a few broken documents; the guarantee covers every document and every failure the engine may report.",
 ["template/template_handler.go"], [("processContentInternal deferred recovery", "template/template_handler.go")], ["ProcessContent", "ProcessTemplate"])

prop("C18", "Writing results never loses a source file",
 "When a file is rendered to the disk, the original content of a source that is not a template file is kept (as it was, or under the name with .original added) unless overwrite is on, and a template file is only removed when overwrite is on, its result went beside it and was successfully written. With output to stdout, or when nothing changed in place, no file is created, renamed, modified or removed; at most the one target file receives the result.",
 ["inputs", "configurations", "fault_sequences"], "all options, names, contents and failures of each file operation",
 "Tests render one or two files without failing file operations.",
 ["template/template_handler.go", "template/utils.go"], [("processTemplate", "template/template_handler.go"), ("getTargetFile", "template/utils.go")], ["ProcessTemplate", "ProcessTemplates"])

prop("C19", "Several files are processed independently",
 "Processing a list of templates processes each of them exactly once in order, whatever happens to the previous ones: the failure of one is reported without preventing the next, the successful targets are listed in order, and an output option changed by one file never leaks to the following one.",
 ["inputs", "histories", "fault_sequences"], "all template lists and all patterns of per-file failures",
 "Tests process one or two files.",
 ["template/template_handler.go"], [("ProcessTemplatesWithHandler", "template/template_handler.go")], ["ProcessTemplates"])

prop("C20", "Extracting words and context around a position is exact",
 "The context around a position of a text is exactly the text between the nearest left and right delimiters around it, the word at a position is the maximal run of word characters (plus the accepted ones) containing it with its true position, and splitting at the first separator gives the parts before and after it. No position or text makes these fail.",
 ["inputs"], "all texts, positions and delimiters",
 "Tests use a few short sentences.",
 ["collections/string.go", "collections/string_util.go"], [("GetContextAtPosition/GetWordAtPosition", "collections/string.go"), ("Split2", "collections/string_util.go")], ["SelectWord", "SelectContext", "Split2"])

prop("C21", "Finding all occurrences of a substring is complete",
 "Listing all positions of a substring gives, in increasing order, exactly the non-overlapping occurrences found scanning from the left: every listed position holds the substring and no occurrence remains between the listed ones. It gives nothing for an empty text or an empty substring.",
 ["inputs"], "all texts and substrings",
 "Tests use a few short texts.",
 ["collections/string.go"], [("IndexAll", "collections/string.go")], ["IndexAll"])

prop("C22", "Protected literals are restored exactly",
 "Protecting the quoted literals of a text and restoring them gives back exactly the same text, and the literals returned are those of the text in order. Restoring never fails on any text.",
 ["inputs"], "all texts",
 "Tests protect a few lines.",
 ["collections/string.go"], [("Protect/RestoreProtected", "collections/string.go")], ["Protect", "RestoreProtected"])

prop("C23", "Centering and indenting keep the text",
 "Centering a text in a width keeps the text unchanged inside the result, gives exactly the asked width when the text fits, and splits the padding evenly (at most one more on one side). A text that does not fit is returned unchanged; indentation puts exactly the given prefix in front of every line and changes nothing else.",
 ["inputs"], "all texts, widths and prefixes",
 "Tests center a few words.",
 ["collections/string_util.go", "collections/string.go"], [("CenterString", "collections/string_util.go"), ("IndentN/Indent", "collections/string_util.go")], ["center", "indent"])

prop("C24", "First defined value wins",
 "The defaulting helpers return the first candidate that is defined (not empty) and the default only if there is none; the ternary helper returns the first branch exactly when the test value is a non-zero value. Emptiness follows the same rule everywhere.",
 ["inputs"], "all values and candidate lists",
 "Tests try a few values.",
 ["collections/utils.go"], [("IfUndef/IIf/Default/IsEmptyValue", "collections/utils.go")], ["ternary", "default", "undef"])

prop("C25", "Data conversion tries the formats in a fixed order",
 "Converting a text to data tries the registered formats in a fixed order that does not depend on the registration order and returns the result of the first that accepts it; if none accepts it, the errors are reported (or the plain text kept where that is allowed). Reading data from a file reports a missing file as such.",
 ["inputs", "histories"], "all texts, all outcomes of each converter, all map orders",
 "Tests convert a few documents with the built-in converters; map order is randomised.",
 ["collections/convert_data.go"], [("ConvertData/LoadData", "collections/convert_data.go")], ["ConvertData", "LoadData"])

prop("C26", "Excluded files are exactly those matching a pattern",
 "Excluding patterns from a list of files returns, in order and unchanged, exactly the files that match none of the patterns, and a malformed pattern met while matching a file is reported as an error. A comma separated list of patterns counts as its trimmed, non-empty parts, in order.",
 ["inputs"], "all file and pattern lists",
 "Tests use a few names and patterns.",
 ["utilities.go"], [("exclude/extend", "utilities.go")], ["--exclude", "--patterns"])

prop("C27", "A context derived from a template does not alter its parent",
 "Deriving a rendering context for a folder never changes the parent's own options, folder or functions, and an option changed in the derived context is not visible in the parent. Asking twice for the same cached folder gives the same context.",
 ["inputs", "histories"], "all templates, folders and option changes",
 "Tests exercise one level with a single option.",
 ["template/template.go"], [("GetNewContext", "template/template.go")], ["GetNewContext"])

prop("C28", "Substitutions apply one after the other, in order",
 "Applying a list of substitutions is applying each of them, in the given order, to the result of the previous one; no substitution leaves the text unchanged. A malformed substitution is refused when it is configured, never ignored.",
 ["inputs"], "all texts and substitution lists",
 "Tests apply a couple of regular expressions.",
 ["utils/substitute.go"], [("InitReplacers/Substitute", "utils/substitute.go")], ["--substitute"])

prop("C29", "Function and alias lookups resolve to the registered function",
 "Looking up a template function by its name or one of its aliases gives the registered function, adding functions never removes or replaces unrelated ones, and the list of function names is complete. An alias always resolves to the same function as its target.",
 ["inputs", "histories"], "all tables of functions and aliases",
 "Tests look at the built-in table only.",
 ["template/func_table.go", "template/add_funcs.go"], [("AddFunctions/addFunctions/FuncInfo", "template/func_table.go")], ["help", "alias"])

prop("C30", "The command line context gives priority to the later variables",
 "In the context built from the command line, files that must exist are applied after the optional ones, named variables after files, and a later definition of a key replaces an earlier one. A missing required file is an error unless missing files are ignored, a missing optional one is skipped, and no combination of arguments crashes.",
 ["inputs", "configurations"], "all lists of variable files and definitions",
 "Tests build a few contexts.",
 ["context.go"], [("createContext", "context.go")], ["--import", "--var", "--import-if-exist"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P))
