"""Writes properties.jsonl and MANIFEST.json from the table below (claimed = listed in props.json)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CA = "parser_library/src/expressions/conditional_assembly/"
P = {}


def prop(id, title, statement, over, text, why, files, mech, note=None, na=None):
    P[id] = dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, na=na)


prop("P01", "Conditional assembly arithmetic is exact or diagnosed",
     "For every pair of 32-bit operands, a conditional assembly addition, subtraction, multiplication, division (truncating, by zero gives zero) or unary sign yields either the mathematically exact integer without a diagnostic, or, when that integer does not fit 32 bits, the value zero together with exactly one overflow (CE013) or underflow (CE014) diagnostic. Parentheses change nothing, and no operand makes evaluation crash or behave unpredictably.",
     ["inputs"], "all 2^64 pairs of operands of every arithmetic operator",
     "tests sample a dozen operand pairs; the defects live on the boundary of the 32-bit range and in the single combination smallest value / minus one",
     [CA + "ca_operator_binary.cpp", CA + "ca_operator_unary.cpp"],
     [("binary operators", CA + "ca_operator_binary.cpp: ca_add/ca_sub/ca_mul/ca_div, ca_basic_binary_operator::operation"), ("unary operators", CA + "ca_operator_unary.cpp: ca_plus_operator, ca_minus_operator, ca_par_operator")])
prop("P02", "Conditional assembly shifts and logic follow their definition",
     "For all 32-bit operands the shift functions use the low six bits of the shift amount and produce the defined logical or sign-preserving arithmetic shift (amounts past the width included, amount zero returning the operand unchanged), and AND, OR, XOR and NOT are the bitwise operations. On boolean operands the logical operators, including the AND NOT, OR NOT and XOR NOT forms, follow their truth tables; none of them produces a diagnostic.",
     ["inputs"], "all operand pairs of every shift and logical operator",
     "tests sample a few shift amounts; a wrong sign bit or an out-of-width shift shows for few of the 2^64 operand pairs",
     [CA + "ca_operator_binary.cpp", CA + "ca_operator_unary.cpp"],
     [("function operators", CA + "ca_operator_binary.cpp: ca_function_binary_operator::operation, shift_operands"), ("NOT", CA + "ca_operator_unary.cpp: ca_function_unary_operator")])
prop("P03", "Conditional assembly comparison is a total order",
     "EQ, NE, LT, LE, GT and GE on arithmetic operands agree with the order of the integers for all 32-bit operands. On character operands a shorter operand is always less than a longer one and operands of equal length compare by the EBCDIC collating sequence of the first differing character, so that exactly one of less, equal, greater holds for any two operands.",
     ["inputs"], "all pairs of 32-bit integers; all pairs of character strings of any length",
     "a comparison by subtraction passes every test with small operands and is wrong for half of the operand space; collation differs from ASCII only for particular character pairs",
     [CA + "ca_operator_binary.cpp", "parser_library/src/ebcdic_encoding.cpp"],
     [("relational evaluation", CA + "ca_operator_binary.cpp: ca_function_binary_operator::compare_relational, compare_string"), ("EBCDIC translation", "parser_library/src/ebcdic_encoding.cpp: to_ebcdic")])
prop("P04", "Conversion functions and self-defining terms are exact or diagnosed",
     "For every argument, the conversion functions between arithmetic values and binary, character, decimal and hexadecimal strings, the type tests and the self-defining terms return the exactly defined value, and each string conversion is consistent with the conversion through arithmetic. Every argument that has no defined value (an invalid character at any position, too long, out of range) is diagnosed instead of producing a value, and no argument causes an out-of-bounds access.",
     ["inputs"], "all argument strings of any length and content and all 32-bit integers, per conversion function",
     "the argument space is strings of any length; errors hide at group boundaries (last digit of a pair, padding, 32-bit limit) that the handful of test strings do not hit",
     [CA + "terms/ca_function.cpp", CA + "terms/ca_constant.cpp", CA + "ca_expr_policy.cpp", "parser_library/src/ebcdic_encoding.cpp"],
     [("conversion functions", CA + "terms/ca_function.cpp: A2B..X2D, ISBIN/ISDEC/ISHEX/ISSYM, BYTE, SIGNED"), ("self-defining terms", CA + "terms/ca_constant.cpp: self_defining_term, try_self_defining_term")])
prop("P05", "Conditional assembly string operations are exact or diagnosed",
     "For all operand strings and all numeric arguments, DCLEN, DCVAL, DEQUOTE, DOUBLE, FIND, INDEX, UPPER, LOWER, concatenation, duplication and substring notation return exactly the characters or positions their definition gives (doubled quotes and ampersands pair from the left; substring positions are one-based and a range reaching past the end is cut). A substring start or length outside of the operand and a result longer than 4064 characters are diagnosed instead of producing a wrong value, and no argument causes an out-of-bounds access or integer overflow.",
     ["inputs"], "all operand strings of any length and content, all 32-bit start, length and duplication arguments",
     "the errors sit at the ends of the string, at the 4064 limit and at the limits of the 32-bit arguments, for operands of arbitrary length",
     [CA + "terms/ca_function.cpp", CA + "terms/ca_string.cpp", CA + "ca_operator_binary.cpp"],
     [("string functions", CA + "terms/ca_function.cpp: DCLEN, DCVAL, DEQUOTE, DOUBLE, FIND, INDEX, LOWER, UPPER"), ("character expressions", CA + "terms/ca_string.cpp: ca_string::evaluate, duplicate"), ("concatenation", CA + "ca_operator_binary.cpp: ca_conc")])
prop("P06", "Files read from disk become valid UTF-8 and lose no valid character",
     "For every sequence of bytes in a file, the text handed to the analysis is well-formed UTF-8 in which every well-formed character of the file is kept in place and every other byte is replaced by U+FFFD; no byte sequence (truncated, overlong, surrogate, beyond U+10FFFF) is passed through or makes the conversion read past the end.",
     ["inputs"], "all byte strings of any length",
     "ill-formed sequences are combinatorial (lead byte times continuation bytes times end of file) and tests hold a few",
     ["parser_library/src/workspaces/file_impl.cpp"],
     [("sanitisation", "parser_library/src/workspaces/file_impl.cpp: replace_non_utf8_chars")])
prop("P07", "Document text and line index always agree with the editor",
     "After a document is opened and after any sequence of full or incremental changes, the stored text is exactly the text obtained by applying the edits as the protocol defines them, the version advances by one per change, and the line index holds exactly the beginnings of the lines of that text, where CR, LF and CR LF each end a line, also where an edit splits or joins a separator or touches the end of the document.",
     ["inputs", "histories"], "all document texts, all edit ranges and replacement texts, all sequences of edits",
     "an edit can split or join line separators at both of its ends, and a wrong line index only shows in a later edit of the same document",
     ["parser_library/src/workspaces/file_impl.cpp"],
     [("open and change", "parser_library/src/workspaces/file_impl.cpp: did_open, did_change"), ("line index", "parser_library/src/workspaces/file_impl.cpp: find_newlines, create_line_indices")])
prop("P08", "Editor positions are translated to text offsets in UTF-16 units",
     "For every well-formed text and every protocol position, the offset used by the server is the beginning of the character that the UTF-16 column denotes (characters outside of the basic plane count two columns), a column past the end of a line denotes the end of that line, and the lookups on document text by position (line, character before, range content) return exactly the denoted characters and never access the text outside of its bounds.",
     ["inputs"], "all texts, all lines and columns",
     "columns behind multi-byte characters, past the end of a line and at the end of the document are not sampled by tests",
     ["parser_library/src/workspaces/file_impl.cpp", "parser_library/src/lsp/text_data_ref_t.cpp"],
     [("position to offset", "parser_library/src/workspaces/file_impl.cpp: index_from_position, index_from_location"), ("text lookups", "parser_library/src/lsp/text_data_ref_t.cpp: get_line, get_line_beginning, get_character_before, get_range_content")])

OA = "parser_library/src/context/ordinary_assembly/"
prop("P11", "Machine expressions and relocatable addresses evaluate exactly",
     "For all operands, a machine expression over absolute terms is evaluated in 32-bit two's complement arithmetic (division truncates and division by zero gives zero) and never traps; undefined operands make the result undefined, and multiplying or dividing relocatable terms is diagnosed. Addresses add and subtract base by base with exact counts, the difference of two addresses in one section is the absolute distance, and a space of unknown length contributes exactly its length times its count as soon as the length is known.",
     ["inputs"], "all absolute operands; addresses over any sections, counts and offsets (up to two sections and two spaces per operand)",
     "errors hide in sign and order of subtraction, in counts other than one, and at the limits of the 32-bit range, which the sampled expressions do not reach",
     [OA + "address.cpp", OA + "symbol.cpp", "parser_library/src/expressions/mach_operator.h", "parser_library/src/expressions/mach_expr_term.cpp"],
     [("addresses", OA + "address.cpp: merge_entries, offset, normalized_spaces, operators"), ("values", OA + "symbol.cpp: symbol_value operators"), ("expressions", "parser_library/src/expressions/mach_operator.h: evaluate")])

prop("P09", "Characters translate between UTF-8 and EBCDIC without loss",
     "The ASCII and EBCDIC translation tables are inverse to each other for all 256 codes and give letters, digits and the special characters of the assembler their EBCDIC codes. Every EBCDIC code becomes one well-formed UTF-8 character that translates back to the same code, and every well-formed text translates to exactly one EBCDIC byte per character (the substitute character 3F for characters without a code), embedded NULs and characters at the end of the text included, without reading outside of the text.",
     ["inputs"], "all 256 codes; all texts of any length",
     "collation, conversion functions and attributes all go through the tables; a wrong entry or a wrong multi-byte step shows only for particular characters",
     ["parser_library/src/ebcdic_encoding.cpp", "parser_library/src/ebcdic_encoding.h"],
     [("tables", "parser_library/src/ebcdic_encoding.h: a2e, e2a"), ("conversion", "parser_library/src/ebcdic_encoding.cpp: to_ebcdic, to_ascii, to_pseudoascii")])
prop("P10", "Location counters place every area at its aligned, non-overlapping location",
     "For any sequence of storage reservations, alignments, ORG and location counter or section switches, every area begins at the first location that satisfies its alignment and is not below the end of the previous area; ORG without operand continues behind the highest location reached. Areas behind storage of unknown length get exactly the location they would have had with the length known from the beginning, whatever the order in which the lengths become known, and separate location counters of a section are laid out one behind the other.",
     ["inputs", "histories"], "all storage amounts and alignments; sequences of reservations with up to two unknown spaces, three ORGs, two sections",
     "an off-boundary alignment or a wrong order of resolution shifts addresses only for particular residues of the amounts",
     [OA + "location_counter.cpp", OA + "location_counter_data.cpp", OA + "section.cpp", OA + "ordinary_assembly_context.cpp", OA + "address.cpp"],
     [("storage and alignment", OA + "location_counter_data.cpp: align, reserve, resolve_space"), ("ORG", OA + "location_counter.cpp: set_value, set_available_value"), ("layout", OA + "section.cpp: finish_layout")])
prop("P12", "Forward references resolve as if defined in order and cycles are diagnosed",
     "Symbols, and storage whose length depends on symbols, get the same values in whatever order the definitions come: a symbol becomes defined exactly when the last symbol it depends on is defined, with the value of its expression, addresses behind storage of unknown length included. A cyclic definition over any number of symbols is reported and broken instead of looping, and a second definition of a symbol is refused without changing the first.",
     ["inputs", "histories"], "all constants and every order of definition of up to five symbols and two storage areas",
     "the order of resolution depends on the order of definitions; tests hold a few fixed orders",
     [OA + "symbol_dependency_tables.cpp", OA + "ordinary_assembly_context.cpp", OA + "dependency_collector.cpp", OA + "symbol.cpp"],
     [("dependency tables", OA + "symbol_dependency_tables.cpp: add_dependency, add_defined, resolve, check_cycle"), ("symbols", OA + "ordinary_assembly_context.cpp: create_symbol")])

prop("P15", "Variable symbols in model statements substitute exactly their values",
     "When a statement with variable symbols is generated, every variable symbol is replaced by its value (arithmetic values by their magnitude without leading zeros, boolean values by 0 or 1, character values unchanged) and all other text is kept: of the periods only the one that directly ends a variable symbol disappears, sublists keep their parentheses, entries and commas, and empty parts leave no trace.",
     ["inputs", "programs"], "all values and texts of any length; concatenations of up to four parts",
     "the effect depends on the kind of the neighbours of a period and on extreme values; tests hold a few literal statements",
     ["parser_library/src/semantics/concatenation.cpp", "parser_library/src/semantics/concatenation_term.cpp", "parser_library/src/semantics/variable_symbol.cpp"],
     [("concatenation", "parser_library/src/semantics/concatenation.cpp: evaluate, to_string, clear_concat_chain"), ("values", "parser_library/src/semantics/concatenation_term.cpp: var_sym_conc::evaluate, sublist_conc::evaluate")])
prop("P16", "Variable symbols and macro operands hold what was assigned to them",
     "A SET symbol returns for every subscript the value last assigned to that subscript (or the default of its type), and its number attribute is the highest assigned subscript; wrong subscripts are diagnosed and give no value. A macro call binds every positional, keyword and name-field operand, or the default, to its parameter; sublist entries at any depth, &SYSLIST, N' and K' agree with the operand as written, omitted entries included, and an operand passed on through a variable symbol keeps its text unchanged.",
     ["inputs", "histories"], "all values, subscripts and operand texts; two assignments, up to three operands, sublists of two levels; every operand text up to a bounded length for the parsing of sublists",
     "subscripts, omitted entries, and the mix of positional and keyword operands combine; tests hold a few",
     ["parser_library/src/context/macro.cpp", "parser_library/src/context/macro_param_data.cpp", "parser_library/src/context/variables/set_symbol.h", "parser_library/src/context/variables/macro_param.cpp", "parser_library/src/context/variables/system_variable.cpp", "parser_library/src/processing/context_manager.cpp", "parser_library/src/processing/instruction_sets/macro_processor.cpp"],
     [("SET symbols", "parser_library/src/context/variables/set_symbol.h"), ("subscripts", "parser_library/src/processing/context_manager.cpp: get_var_sym_value, test_symbol_for_read"), ("macro call", "parser_library/src/context/macro.cpp: macro_definition::call"), ("sublists", "parser_library/src/context/macro_param_data.cpp, variables/macro_param.cpp, variables/system_variable.cpp"), ("operand text", "parser_library/src/processing/instruction_sets/macro_processor.cpp: string_to_macrodata")])

prop("P13", "Machine instruction operands are checked against their format",
     "An operand of a machine instruction is accepted exactly when its form and its values fit the operand format of the instruction: a register, mask or immediate field of n bits takes the values of an n-bit (signed or unsigned) field; an address D(X,B), D(L,B), D(,B), D(X) or D(B) is accepted only where the format has it, with every written subfield in the range of its field (a length field also takes 2**n); an omitted operand is never valid. Anything else yields the one diagnostic of the offending field, naming its real bounds. A statement with too few or too many operands is reported once; otherwise each operand is checked against the format at its place, every invalid one is reported, and the statement is valid exactly when all are. What the table of instructions says about a particular instruction is not part of this.",
     ["inputs"], "all 32-bit values, all field sizes up to 32 bits, all operand forms; operand lists of up to three operands",
     "the value ranges and the forms of address operands multiply; tests hold a few combinations",
     ["parser_library/src/checking/instr_operand.cpp", "parser_library/src/context/instruction.cpp", "parser_library/src/semantics/operand_impls.cpp"],
     [("field ranges", "parser_library/src/checking/instr_operand.cpp: is_operand_corresponding, one_operand::check, address_operand::check"), ("operand lists", "parser_library/src/context/instruction.cpp: machine_instruction::check"), ("operand values", "parser_library/src/semantics/operand_impls.cpp: address_machine_operand::get_operand_value, make_check_operand")])

prop("P14", "Data definitions have the lengths, boundaries and attributes of their type",
     "Exactly the DC/DS types of the language exist. For every type: the boundary and the implicit length are those of the type, a length modifier (bits rounded up to bytes) replaces the length and removes the boundary; an operand takes duplication factor x number of values x length of one value, where a C, X, B, P, Z or G constant without a length is as long as its text requires (characters, not their encoding; spaces between X and B digits do not count); the length attribute is that of the first value, the scale and integer attributes follow the modifier or the text. Operands of one statement follow one another, each on its boundary. An operand is accepted exactly when duplication factor, modifiers, the kind of nominal value, the number and digit syntax of its text and its total length are allowed for the type in DC or DS; otherwise an error is reported and it occupies no storage. (The length modifier of A and Y without a nominal value is not judged.)",
     ["inputs"], "all 39 types, all 32-bit duplication factors and modifiers, nominal texts of any length for lengths, attributes and digit syntax, texts of up to 4 characters for complete number lists, up to three values and two operands",
     "39 types with their own ranges, each with several modifiers; tests hold a few values per type",
     ["parser_library/src/checking/data_definition"],
     [("types", "parser_library/src/checking/data_definition/data_def_types_*.cpp"), ("length, attributes, verdict", "parser_library/src/checking/data_definition/data_def_type_base.cpp: get_length, get_length_attribute, check"), ("numbers", "parser_library/src/checking/checker_helper.h: check_number, check_exponent"), ("operands", "parser_library/src/checking/data_definition/data_definition_operand.h: get_operands_length")])

# ---- not decidable with contracts here
prop("P90", "Analysis of any document terminates without a crash",
     "Opening or editing any document text, with any set of library files, ends in a finished analysis with a list of diagnostics, never in a crash or an endless loop.",
     ["inputs", "programs"], "every document and library content", "the grammar and lookahead paths are unbounded",
     ["parser_library/src/analyzer.cpp", "parser_library/src/processing/processing_manager.cpp"],
     [("processing loop", "parser_library/src/processing/processing_manager.cpp: start_processing")],
     na="termination and crash freedom of the whole pipeline runs through the ANTLR-generated parser and its runtime (hundreds of thousands of lines of template and virtual code); no contract within reach of the verifier can carry it")
prop("P91", "Requests are answered in order and cancellation never corrupts state",
     "Requests are executed one at a time in arrival order, a superseding edit cancels only the outdated analysis, and every request is answered exactly once.",
     ["schedules", "histories"], "every interleaving of the client's messages with the worker thread", "interleavings",
     ["language_server/src/request_manager.cpp"], [("request queue", "language_server/src/request_manager.cpp: handle_request_, add_request")],
     na="a property of thread schedules (condition variable, atomic cancellation token); sequential contracts cannot express it and no concurrent separation logic tool for C++ is installed")
prop("P92", "Debugger steps visit every executed statement once",
     "Stepping over, into and out of macros and COPY members stops at exactly the statements the assembler executes, in execution order, and shows the variables valid at that point.",
     ["histories", "programs"], "every program and every sequence of debugger commands", "histories of commands times programs",
     ["parser_library/src/debugging/debugger.cpp"], [("step control", "parser_library/src/debugging/debugger.cpp: debugger::impl::statement")],
     na="runs on a second thread blocked on a condition variable inside the analysis of a program; the property is about the schedule of two threads and the history of commands, which function contracts do not express")
prop("P93", "Parallel and repeated analysis give identical results",
     "Analysing the same files again, in any order of opening and closing, publishes the same diagnostics and semantic information.",
     ["histories", "configurations"], "every order of open, change and close of any set of files", "histories",
     ["parser_library/src/workspaces/workspace.cpp"], [("reparse", "parser_library/src/workspaces/workspace.cpp: did_open_file, did_close_file")],
     na="a relation between whole histories of a workspace through the generated parser; out of reach of function contracts for the same reason as P90")


def main():
    props = json.load(open(os.path.join(V, "props.json")))
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for id in sorted(P):
            p = P[id]
            if id not in props and not p["na"]:
                continue
            f.write(json.dumps({"id": id, "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
    checks, na = [], []
    for id in sorted(P):
        p = P[id]
        if id in props:
            x = props[id]
            checks.append({
                "property": id,
                "quick_cmd": f"python3-vt vp/runner.py {id} --tier quick",
                "thorough_cmd": f"python3-vt vp/runner.py {id} --tier thorough",
                "evidence_file": f"evidence/{id}.json",
                "technique": "contract-based deductive verification of the compiled real code: contracts in harness/" + ", harness/".join(u["h"] for u in x["units"]) + " discharged over the LLVM IR of /repo's current sources (loop invariants, unbounded strings and vectors) by z3/cvc5; counterexamples replayed natively; bounded symbolic unrolling where no proof is found",
                "level": x.get("level", "proof"),
                "level_note": x.get("note", "") or "evidence lists per contract whether it is proved without bound or only bounded",
            })
            if x.get("theorems"):
                checks[-1]["theorems"] = x["theorems"]
        elif p["na"]:
            na.append({"property": id, "reason": p["na"]})
    m = {"version": 1, "setup_cmd": "python3-vt vp/selftest.py", "checks": checks, "not_applicable": na,
         "notes": "Every check recompiles the sources it names from /repo's working tree. No hooks in /repo are needed."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
