#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the JSON stays valid)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
        "mechanism": [dict(name=n, where=w) for n, w in mechanism],
        "observe_at": list(observe), "hook_needed": hook}})

PAR = "dice_syntax::Parser::parse"
CMP = "dice_compiler::compiler::Compiler::compile_source"
V = "dice-compiler/src/visitor/"

prop("C01", "Parsing and compiling any text ends in a program or a diagnostic, never a crash",
 "For every source text, parsing it and compiling it (as a script or as a module) terminate and yield either a result or an error value. They never panic, abort, loop forever or report an internal compiler error, and formatting the error they return for a human never panics either.",
 ["inputs", "programs"],
 "Every UTF-8 text, well-formed or not (sizes that exhaust machine memory or call stack excluded), as a script and as a module.",
 "The existing tests tokenize four fixed strings and never call the parser or the compiler; totality is a statement about every input, including malformed ones.",
 ["dice-syntax/src/lexer/token.rs", "dice-syntax/src/parser/mod.rs", "dice-syntax/src/parser/rules.rs", "dice-compiler/src", "dice-core/src/error/fmt.rs"],
 [("lexer error token and extras error slot", "dice-syntax/src/lexer/token.rs"), ("rule lookup for every token kind", "dice-syntax/src/parser/rules.rs for_token"), ("error returns instead of unreachable!/expect in the visitors", V)],
 [("lexer extras", "pending lexical error handed to the parser", "dice-syntax/src/lexer/lexer_result.rs")], [PAR, CMP, "Display and Debug of the error"])

prop("C02", "Tokens: longest match, keywords only as whole words, layout never matters",
 "Text is split into tokens by longest match, and a keyword or reserved word is recognised only when it is a whole word: any other word of letters, digits and underscores not starting with a digit is an identifier. Spaces, tabs, line breaks and line comments (including an empty comment) between two tokens never change what a program means, and a line comment ends exactly at the end of its line.",
 ["inputs"], "Every word, every pair of adjacent tokens, and every insertion of layout between two tokens of a program.",
 "The lexer tests discard the result of matches!, so they assert nothing; and whole-word and longest-match rules concern all neighbouring characters.",
 ["dice-syntax/src/lexer/token.rs", "dice-syntax/src/lexer/mod.rs"],
 [("logos token/regex table with skip rule", "dice-syntax/src/lexer/token.rs TokenKind"), ("peekable token stream", "dice-syntax/src/lexer/mod.rs Lexer")],
 [], [PAR])

prop("C03", "Operators group by the documented precedence, left to right",
 "Binary operators group, from loosest to tightest: pipeline; coalescing (?? and or); ranges; ||; &&; comparisons and is; + and -; * / %; and all of them are left-associative. Prefix - and ! bind tighter than binary operators, postfix ? and !! bind tighter than prefix ones, member access, indexing and calls bind tightest, assignment is the loosest and is right-associative, and parentheses override all of this.",
 ["programs"], "Every combination of operators, operand shapes and parentheses, of any length.",
 "No existing test parses anything; grouping is a relation between all pairs of operators and positions.",
 ["dice-syntax/src/parser/mod.rs", "dice-syntax/src/parser/rules.rs"],
 [("Pratt loop", "dice-syntax/src/parser/mod.rs parse_precedence"), ("rule table and Precedence::increment", "dice-syntax/src/parser/rules.rs")], [], [PAR, "syntax tree"])

prop("C04", "A text is accepted exactly when all of it belongs to the grammar",
 "Parsing succeeds exactly when the whole text is a sentence of the language's grammar, and the resulting tree accounts for every token of it in order: nothing is dropped, duplicated, reordered or ignored, including anything after the last statement. A text outside the grammar is rejected with a syntax diagnostic.",
 ["inputs", "programs"], "Every sequence of tokens.",
 "No existing test parses anything; acceptance quantifies over all token sequences.",
 ["dice-syntax/src/parser/mod.rs"], [("recursive descent productions and consume()", "dice-syntax/src/parser/mod.rs"), ("end-of-input handling", "dice-syntax/src/parser/mod.rs parse, expression_sequence")], [], [PAR, "syntax tree"])

prop("C05", "Literals denote exactly the value written",
 "An integer literal denotes exactly that integer and is rejected when it does not fit 64-bit signed range; a float literal denotes the nearest double. A string literal denotes its characters with the escapes \\\" \\\\ \\n \\r \\t replaced and every other escape or missing terminator rejected; a backslash argument denotes its raw text, and object keys denote the identifier, digits or string content written. The compiled program delivers exactly these values, never confusing equal-looking literals of different kinds.",
 ["inputs", "programs"], "Every literal, in every literal position.",
 "The tests never look at a literal's value; exactness quantifies over all numerals and all strings.",
 ["dice-syntax/src/parser/mod.rs", "dice-syntax/src/lexer/token.rs", "dice-compiler/src/visitor/literal_int.rs", "dice-compiler/src/visitor/literal_float.rs", "dice-compiler/src/visitor/literal_string.rs", "dice-compiler/src/visitor/literal_object.rs", "dice-compiler/src/assembler.rs"],
 [("literal and process_string", "dice-syntax/src/parser/mod.rs"), ("lex_string, lex_backslash_arg", "dice-syntax/src/lexer/token.rs"), ("constant pool", "dice-compiler/src/assembler.rs make_constant")], [], [PAR, CMP, "constants of the bytecode"])

prop("C06", "Compiled code is well formed along every path",
 "For every program the compiler accepts, in the main code and in every nested function: every instruction and operand decodes, every jump lands on an instruction boundary inside the code, every constant, local slot and upvalue reference is in range and of the right kind, and the operand stack has one consistent height at each instruction whichever path leads there, never underflows, and holds exactly one result at every exit.",
 ["programs"], "Every accepted program and every path through its control-flow graph.",
 "No existing test compiles anything; an imbalance typically needs an early exit inside a half-evaluated expression.",
 ["dice-compiler/src/assembler.rs", "dice-compiler/src/visitor", "dice-compiler/src/scope_stack.rs", "dice-compiler/src/compiler_stack.rs", "dice-bytecode/src/lib.rs", "dice-bytecode/src/cursor.rs"],
 [("jump patching", "dice-compiler/src/assembler.rs patch_jump, jump_back"), ("slot allocation", "dice-compiler/src/scope_stack.rs add_local"), ("temporary count", "dice-compiler/src/compiler_stack.rs")],
 [("temporary_count", "operands pending on the stack at the current point", "dice-compiler/src/compiler_stack.rs")], [CMP, "BytecodeCursor over the code", "slot_count, upvalue_count, constants"])

prop("C07", "Compiled expressions, assignments and conditionals compute what the source says",
 "Executing a compiled program produces the value, the calls and the order of calls that its source denotes: operands are evaluated left to right, each exactly once (the callee of a pipeline comes before its argument), && || ?? and if evaluate only the branch they select, and every operator applies the operation written. Assignments and compound assignments update exactly the named variable, field or element, and a block yields its last expression, or unit when it has none.",
 ["programs", "histories"], "Every program built from expressions, blocks, conditionals, variables and assignments, and every sequence of answers of the functions it calls.",
 "No existing test compiles or runs anything.",
 ["dice-compiler/src/visitor/expr_binary_op.rs", "dice-compiler/src/visitor/expr_assignment.rs", "dice-compiler/src/visitor/expr_if.rs", "dice-compiler/src/visitor/expr_block.rs", "dice-compiler/src/visitor/expr_fn_call.rs", "dice-compiler/src/visitor/decl_var.rs", "dice-compiler/src/assembler.rs"],
 [("expression visitors", V), ("instruction emission", "dice-compiler/src/assembler.rs emit_bytecode!")], [], [CMP, "bytecode executed on a reference machine"])

prop("C08", "Loops repeat, and break, continue and return leave, exactly as written",
 "A loop body runs once per iteration the source calls for: while and loop as long as their condition asks, a range loop once per integer of the range with the ends evaluated once, an iterator loop once per produced value. break ends the innermost loop, continue starts its next iteration, and return leaves the function with its value, from any depth of nested blocks and half-evaluated expressions, without disturbing the values of the surrounding expressions.",
 ["programs", "histories"], "Every nesting of loops, blocks, calls and expressions with early exits, and every sequence of condition answers (bounded iterations).",
 "No existing test compiles or runs anything; defects appear only for an exit inside a half-evaluated expression or on later iterations.",
 ["dice-compiler/src/visitor/expr_loop.rs", "dice-compiler/src/visitor/expr_while.rs", "dice-compiler/src/visitor/expr_for.rs", "dice-compiler/src/visitor/expr_range_loop.rs", "dice-compiler/src/visitor/expr_break.rs", "dice-compiler/src/visitor/expr_continue.rs", "dice-compiler/src/visitor/expr_return.rs", "dice-compiler/src/scope_stack.rs"],
 [("loop scopes with entry and exit points", "dice-compiler/src/scope_stack.rs"), ("temporary count popped before leaving", "dice-compiler/src/visitor/expr_return.rs")],
 [("exit_points", "jumps out of the innermost loop awaiting their target", "dice-compiler/src/scope_stack.rs ScopeContext")], [CMP, "bytecode executed on a reference machine"])

prop("C09", "Functions see the variables their source text is scoped in, at any later time",
 "A name used in a function refers to the innermost enclosing declaration in the source, and a nested function shares that very variable with the code and functions around it: it sees later assignments and its own assignments are seen, while the scope lives and after it ended, however the scope was left. Each execution of a scope, such as one loop iteration or one call, creates fresh variables, and shadowing, sibling scopes and recursion never mix variables up.",
 ["programs", "histories"], "Every nesting of functions, blocks and loops, every choice of captured variables, and every order of writing, leaving scopes and calling.",
 "No existing test compiles or runs anything; capture errors need a closure that outlives the scope or several closures sharing a variable.",
 ["dice-compiler/src/compiler_stack.rs", "dice-compiler/src/scope_stack.rs", "dice-compiler/src/upvalue.rs", "dice-compiler/src/decl_scan.rs", "dice-compiler/src/visitor/literal_variable.rs", "dice-compiler/src/visitor/decl_fn.rs", "dice-compiler/src/visitor/literal_anonymous_fn.rs", "dice-compiler/src/visitor/expr_block.rs"],
 [("resolve_upvalue", "dice-compiler/src/compiler_stack.rs"), ("closing captured variables at scope ends", "dice-compiler/src/visitor/expr_block.rs visit_close_upvalues")],
 [("is_captured", "variable captured by a nested function", "dice-compiler/src/scope_stack.rs ScopeVariable"), ("upvalues", "captured variables of the function being compiled", "dice-compiler/src/compiler_stack.rs")], [CMP, "bytecode executed on a reference machine"])

prop("C10", "Variable rules are enforced: exactly the rule-breaking programs are rejected",
 "A program is rejected when it assigns to an undeclared name, assigns to something not declared mutable, assigns to something that is not a variable, field or element, uses a function or class of the same function body before its declaration, or declares a function or class whose name is already taken in that scope by a function, class or variable. The reported error names a rule the program breaks (and the variable concerned), and a program that breaks no rule is accepted.",
 ["programs"], "Every program built from declarations, uses and assignments in nested scopes and functions.",
 "No existing test compiles anything; acceptance and rejection quantify over all arrangements of declarations and uses.",
 ["dice-compiler/src/scope_stack.rs", "dice-compiler/src/decl_scan.rs", "dice-compiler/src/visitor/expr_assignment.rs", "dice-compiler/src/visitor/literal_variable.rs", "dice-compiler/src/visitor/decl_fn.rs", "dice-compiler/src/visitor/decl_class.rs"],
 [("declaration scan", "dice-compiler/src/decl_scan.rs"), ("mutability and initialization state", "dice-compiler/src/scope_stack.rs State")], [("State", "mutable / initialized flags per variable", "dice-compiler/src/scope_stack.rs")], [CMP])

prop("C11", "Placement rules for functions, classes and control flow are enforced exactly",
 "A program is rejected when: parameters repeat; a constructor lacks its receiver, has a return type, returns a value, or in a derived class does not begin its body by calling the parent constructor; a class operator lacks its receiver; a receiver has a type; return or !! is used outside a function (or !! in a constructor), break or continue outside a loop of the same function, super outside a method or constructor, or export outside the top level of a module. The reported error names a rule the program breaks, and a program that breaks none is accepted.",
 ["programs"], "Every nesting of functions, methods, constructors, operators, classes, loops and modules with each of these constructs inside.",
 "No existing test compiles anything; each rule depends on the kinds of all enclosing constructs.",
 ["dice-compiler/src/compile_fn.rs", "dice-compiler/src/visitor/decl_class.rs", "dice-compiler/src/visitor/decl_fn.rs", "dice-compiler/src/visitor/decl_op.rs", "dice-compiler/src/visitor/decl_export.rs", "dice-compiler/src/visitor/expr_block.rs", "dice-compiler/src/visitor/expr_return.rs", "dice-compiler/src/visitor/expr_break.rs", "dice-compiler/src/visitor/expr_continue.rs", "dice-compiler/src/visitor/expr_super_call.rs", "dice-compiler/src/visitor/expr_super_access.rs", "dice-compiler/src/visitor/expr_error_propagate.rs"],
 [("compiler kind of the function being compiled", "dice-compiler/src/compiler_stack.rs CompilerKind")], [("kind", "script, module, function, method or constructor", "dice-compiler/src/compiler_stack.rs CompilerContext")], [CMP])

prop("C12", "Sizes beyond what the instruction encoding holds are rejected, never wrapped",
 "However many constants, variables, captured variables, arguments, list elements or bytes of branch a function has, compiling it either yields code that computes what the source says or reports an error. An index, count or jump distance is never silently truncated to the width of its operand.",
 ["programs"], "Every size of each countable construct, on both sides of each encoding limit.",
 "No existing test compiles anything, and every limit lies at 256 elements or 32767 bytes, far beyond handwritten samples.",
 ["dice-compiler/src/assembler.rs", "dice-compiler/src/scope_stack.rs", "dice-compiler/src/visitor", "dice-syntax/src/parser/mod.rs"],
 [("make_constant limit", "dice-compiler/src/assembler.rs"), ("upvalue limit", "dice-compiler/src/assembler.rs closure"), ("parameter limit", "dice-syntax/src/parser/mod.rs fn_decl")], [], [CMP, "bytecode executed on a reference machine"])

prop("C13", "Every diagnostic says what is wrong and shows the right place",
 "The text of every error the front end or compiler returns contains its error code, a complete non-empty message with every placeholder filled in, and the line and column at which the offending construct begins in the offending source (with the file's path when it has one), followed by exactly the source lines that construct spans. The construct reported lies inside the text and is one that really is at fault.",
 ["inputs", "programs"], "Every rejected source text.",
 "No existing test formats an error; messages, tags and positions vary with every kind of error and input.",
 ["dice-core/src/error/fmt.rs", "dice-core/src/error/localization.rs", "dice-core/src/error/mod.rs", "dice-core/src/error/codes.rs", "data/locales/en-US/errors.ftl", "data/locales/en-US/error-notes.ftl", "dice-syntax/src/lexer/mod.rs", "dice-syntax/src/parser/mod.rs"],
 [("formatter", "dice-core/src/error/fmt.rs"), ("message catalogue", "data/locales/en-US"), ("with_source/with_span/with_tags at each error site", "dice-syntax, dice-compiler")], [], ["Display and Debug of the error", "Error::error_code"])

prop("C14", "Offsets map to the true line and column, and spans to the true lines",
 "For every text and every byte offset at a character boundary, the reported line is the number of line feeds before it and the reported column is the number of UTF-16 units between the start of that line and it. The lines reported for a non-empty range are exactly the whole lines (with their line feeds) that the range touches, in order, without gaps or overlaps.",
 ["inputs"], "Every text (ASCII, multi-byte and astral characters, any line structure), every offset and every range.",
 "Six tests check fixed strings; the property quantifies over all texts, offsets and ranges.",
 ["dice-core/src/source.rs"], [("newline table and per-line UTF-16 table", "dice-core/src/source.rs LineIndex")], [("newlines, utf16_lines", "line starts and wide characters per line", "dice-core/src/source.rs LineIndex")], ["LineIndex::position_of", "LineIndex::lines"])

prop("C15", "The disassembly lists exactly the code",
 "The printed form of a compiled program lists every instruction of the main code and of every nested function exactly once, in order, each at its true offset with its true name and operand values, jump offsets included, and nothing else.",
 ["programs"], "Every compiled program.",
 "No existing test prints bytecode; one mis-sized operand desynchronizes everything after it.",
 ["dice-bytecode/src/lib.rs", "dice-bytecode/src/instruction.rs", "dice-bytecode/src/cursor.rs"],
 [("Display for Bytecode", "dice-bytecode/src/lib.rs"), ("Display for Instruction", "dice-bytecode/src/instruction.rs")], [], ["Display of Bytecode", "BytecodeCursor"])

prop("C16", "Compilation is a function of the source alone",
 "Compiling the same text yields the same program or the same error every time, whatever was compiled before or between, and whatever the file is called; renaming variables consistently, or changing layout, does not change the code apart from names. Distinct functions stay distinct, even when their bodies and names coincide.",
 ["programs", "histories"], "Every source text and every history of earlier compilations in the process.",
 "No existing test compiles anything, let alone twice or in sequence.",
 ["dice-compiler/src", "dice-syntax/src/parser/rules.rs", "dice-bytecode/src/lib.rs"],
 [("fresh compiler state per compilation", "dice-compiler/src/compiler.rs"), ("function identity", "dice-bytecode/src/lib.rs FunctionBytecode")], [], [CMP])

prop("C17", "Classes, constructors, super and operators behave as declared",
 "A class declaration creates a class deriving from the named base (or the universal base), holding exactly its own methods, operators and static functions. Constructing runs the constructor with the new object as its receiver and yields that object however the constructor ends; a call through super, or super of a named class, runs that class's version on the same receiver; a user-defined operator is the one run for its symbol.",
 ["programs", "histories"], "Every class hierarchy, set of members, and use of construction, super and operators, including inside nested functions and methods.",
 "No existing test compiles or runs anything.",
 ["dice-compiler/src/visitor/decl_class.rs", "dice-compiler/src/visitor/decl_op.rs", "dice-compiler/src/visitor/expr_super_access.rs", "dice-compiler/src/visitor/expr_super_call.rs", "dice-compiler/src/visitor/expr_block.rs", "dice-core/src/protocol.rs"],
 [("class emission", "dice-compiler/src/visitor/decl_class.rs"), ("constructor epilogue", "dice-compiler/src/visitor/expr_block.rs"), ("operator names", "dice-compiler/src/visitor/decl_op.rs op_name")], [], [CMP, "bytecode executed on a reference machine"])

prop("C18", "Imports bind and exports publish exactly the named items",
 "An import loads the module at exactly the path written, once per import statement, binds each listed item to the module's field of the same name and the namespace alias to the module itself, and binds nothing else. Running a module yields its export object, which holds exactly the exported names with the values of the exported declarations.",
 ["programs", "histories"], "Every module source built from imports, exports and other declarations in any order.",
 "No existing test compiles or runs a module.",
 ["dice-compiler/src/visitor/decl_import.rs", "dice-compiler/src/visitor/decl_export.rs", "dice-compiler/src/compiler.rs", "dice-syntax/src/parser/mod.rs"],
 [("export object in a hidden variable", "dice-compiler/src/compiler.rs compile"), ("import lowering", "dice-compiler/src/visitor/decl_import.rs")], [], [CMP, "bytecode executed on a reference machine"])

prop("C19", "?, !!, ?? and or short-circuit exactly their own expression",
 "A null met by ? makes the whole access chain it stands in yield null, skipping the rest of that chain and nothing else; !! continues with the result of a success and otherwise returns that very failure from the enclosing function; ?? yields its right side only when the left is null; expr or e { ... } yields the result of a success and otherwise runs the block with e bound to the failure's result. Nothing is evaluated twice, and the expressions around continue undisturbed.",
 ["programs", "histories"], "Every chain and nesting of these operators inside any other construct, and every combination of null, success and failure values.",
 "No existing test compiles or runs anything; errors need a chain inside a half-evaluated outer expression and a particular null.",
 ["dice-compiler/src/visitor/syntax_node.rs", "dice-compiler/src/visitor/expr_null_propagate.rs", "dice-compiler/src/visitor/expr_error_propagate.rs", "dice-compiler/src/visitor/expr_binary_op.rs", "dice-compiler/src/visitor/expr_fn_call.rs", "dice-compiler/src/visitor/expr_index.rs", "dice-syntax/src/parser/mod.rs"],
 [("call context with chain exit points", "dice-compiler/src/visitor/syntax_node.rs"), ("error_coalesce lowering", "dice-syntax/src/parser/mod.rs")], [("call_context", "depth and pending exits of the access chain being compiled", "dice-compiler/src/scope_stack.rs")], [CMP, "bytecode executed on a reference machine"])

prop("C20", "Type annotations are checked on every call and every return",
 "Each annotated parameter is checked against its type before the body runs, in order, and each way of returning a value from a function with a return type, whether explicit, implicit or by !!, checks that value; null passes only where the annotation is nullable. An is test is true exactly for instances of the class or its subclasses, or also for null with a nullable type, and evaluates its operand once; code without annotations is never checked.",
 ["programs", "histories"], "Every combination of annotated and plain parameters, return types, nullability, return paths and argument types.",
 "No existing test compiles or runs anything; a missed check shows only on the one return path and value that violates the annotation.",
 ["dice-compiler/src/visitor/expr_block.rs", "dice-compiler/src/visitor/expr_is.rs", "dice-compiler/src/visitor/expr_return.rs", "dice-compiler/src/visitor/expr_error_propagate.rs", "dice-compiler/src/compile_fn.rs"],
 [("argument checks", "dice-compiler/src/visitor/expr_block.rs visit_args"), ("visit_return", "dice-compiler/src/visitor/expr_block.rs")], [], [CMP, "bytecode executed on a reference machine"])

prop("C21", "Every syntax tree node records where its text is",
 "For every accepted text, the recorded range of every node lies within the text on character boundaries. A literal, identifier, parameter or type covers exactly its own characters, and a bracketed or keyword-introduced construct (call, access, list, object, function, class, import, loop, conditional, unary or assignment) runs exactly from its first character to its last.",
 ["programs"], "Every accepted text and every node of its tree.",
 "No existing test looks at the tree; each construct computes its own range from the tokens around it.",
 ["dice-syntax/src/parser/mod.rs", "dice-core/src/span.rs", "dice-syntax/src/ast/mod.rs"],
 [("span_start + span_end at each production", "dice-syntax/src/parser/mod.rs")], [], [PAR, "SyntaxNode::span"])

# ---- not claimed: the runtime crate does not compile at this commit ----
prop("C30", "Running a compiled program has the effects its bytecode specifies",
 "The interpreter executes every well-formed bytecode program exactly as the instruction set specifies, with values, fields, methods, operators and calls behaving as the language defines, and reports a runtime error with a trace instead of crashing.",
 ["programs", "histories"], "Every well-formed bytecode program.",
 "The runtime crate does not compile at this commit, so none of its tests can run.",
 ["dice-runtime/src/interpreter/mod.rs", "dice-runtime/src/interpreter/helper.rs", "dice-runtime/src/value.rs"], [("instruction dispatch", "dice-runtime/src/interpreter/mod.rs execute")])
prop("C31", "Garbage collection never frees a reachable value",
 "A value reachable from the stack, a global, a module, an open or closed captured variable, or another reachable value survives every collection, and an unreachable one is eventually released.",
 ["programs", "schedules"], "Every program and every point at which a collection may run.",
 "The runtime crate does not compile at this commit, so none of its tests can run.",
 ["dice-runtime/src/runtime.rs", "dice-runtime/src/value", "dice-runtime/src/upvalue.rs"], [("gc-arena Collect derives", "dice-runtime/src/value")])
prop("C32", "Modules load once and only from inside the module directory",
 "Loading a module by path reads only files inside the configured module directory, runs each module at most once per runtime, and gives every importer the same export object, also for cyclic imports.",
 ["histories", "configurations"], "Every import graph and every path text.",
 "The runtime crate does not compile at this commit, so none of its tests can run.",
 ["dice-runtime/src/module/file_loader.rs", "dice-runtime/src/runtime.rs"], [("canonicalize and prefix check", "dice-runtime/src/module/file_loader.rs")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
