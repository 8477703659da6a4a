#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (so that they stay in step)."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SAMPLES = "The snapshot and simulation tests compile a fixed set of programs and, at best, simulate a few input values; "

CG = "spade-mir/src/codegen/mod.rs"
HL = "spade-hir-lowering/src/lib.rs"
TI = "spade-typeinference/src"


def P(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, level="translation_validation", observe=None):
    return dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, technique=technique, note=note, level=level, observe=observe)


TV = "symbolic execution of the Verilog the compiler emits from /repo's sources; SMT (z3 bit-vectors) decides equality with the source semantics for all input values"
TVS = "symbolic unrolling of the emitted Verilog over several clock cycles; SMT (z3 bit-vectors) decides equality with the source semantics for all inputs and initial states"
TVV = "compiler verdicts compared with the solver's answer about the same value sets (z3); accepted programs' hardware checked symbolically"
NOTE = "All input values of every generated program are decided by the solver; the set of programs is finite (systematic families plus seeded random programs). Trusted: the Verilog semantics in vt/elab.py and vt/sym.py (cross-checked by replay in a separate concrete evaluator), the reference semantics in vt/spec.py, z3."

PROPS = [
    P("P01", "Operators compute their mathematical result at every width",
      "For every operand width and every operand value, the hardware emitted for an arithmetic, bitwise, logical or comparison expression yields the mathematically exact result at the result width the type system assigns. Signed operands are treated as signed and no carry, sign or bit is lost, however operators are nested.",
      ["programs", "inputs"], "every operator and nesting, every operand width and value",
      SAMPLES + "operator widths above 8 bits and most operand values are never exercised.",
      [CG, "spade-mir/src/lib.rs", HL, "spade-typeinference/src/expression.rs"],
      [("operator lowering", HL), ("operator text generation", CG), ("result width rules", TI + "/expression.rs")], TV, NOTE),
    P("P02", "Shifts, division and remainder follow their definitions",
      "Left shift, logical and arithmetic right shift, division and remainder by constant powers of two give the mathematically defined result for every operand value, shift amount and width, signed and unsigned. A shift by at least the width gives all zeros or, for the arithmetic shift, all sign bits.",
      ["programs", "inputs"], "every width, operand and shift amount; every power of two divisor",
      SAMPLES + "edge amounts and negative dividends are not simulated.",
      [CG, HL], [("shift and division statements", CG), ("division to power of two lowering", HL)], TV, NOTE),
    P("P03", "Integer literals are accepted exactly when they fit their type",
      "An integer literal is accepted exactly when its value is representable in the integer type it is used at, for every width and both signs. Arithmetic results are only accepted at the width the language defines for them.",
      ["programs", "inputs"], "every literal value and integer type",
      "The tests check a few literals around 8 bits; the claim is about all values and widths.",
      [TI + "/requirements.rs", TI + "/expression.rs", "spade-ast/src/token.rs"],
      [("literal fit requirement", TI + "/requirements.rs"), ("width constraints", TI + "/constraints.rs")], TVV, NOTE),
    P("P04", "Literals and operator grouping mean what is written",
      "Every decimal, hexadecimal, binary, octal, byte and byte string literal, with or without separators and type suffix, denotes its value in hardware at any width. Unparenthesised expressions group by the documented precedence and associativity of the operators.",
      ["programs", "inputs"], "every literal spelling and operator sequence",
      SAMPLES + "spellings at widths above 32 bits and most operator pairs are not covered.",
      ["spade-ast/src/token.rs", "spade-parser/src/expression.rs", CG],
      [("number lexing", "spade-ast/src/token.rs"), ("operator precedence", "spade-parser/src/expression.rs")], TV, NOTE),
    P("P05", "Enum values keep their variant and payload",
      "A value built with a variant matches exactly that variant and gives back exactly the payload it was built with, for every enum shape, and the values of distinct variants are never confused. The bits of an enum value depend on nothing but its variant and payload where those are defined.",
      ["programs", "inputs"], "every enum shape (variant count, payload types, generics) and payload value",
      SAMPLES + "snapshot tests pin text for a handful of enum shapes, not behaviour over all payload values.",
      [CG, "spade-mir/src/enum_util.rs", "spade-mir/src/types.rs", "spade-hir-lowering/src/pattern.rs"],
      [("tag and payload layout", "spade-mir/src/enum_util.rs"), ("construction, test and extraction", CG)], TV, NOTE),
    P("P06", "Tuples, structs and arrays keep every element",
      "Building a tuple, struct or array and reading any element, slice or run-time index of it gives back exactly that element for every value. Concatenation, ranges, repetition and nested aggregates keep order and width.",
      ["programs", "inputs"], "every aggregate shape, index and element value",
      SAMPLES + "element order mistakes that cancel in symmetric tests survive.",
      [CG, HL, "spade-mir/src/types.rs"], [("aggregate layout", "spade-mir/src/types.rs"), ("construction and indexing statements", CG)], TV, NOTE),
    P("P07", "Selection picks the first matching alternative",
      "If, else-if chains and match expressions yield the value of the first alternative whose condition, pattern and guard hold, with pattern bindings bound to the matched parts, for every scrutinee value. Alternatives that are not selected have no influence.",
      ["programs", "inputs"], "every pattern, guard and scrutinee value",
      SAMPLES + "overlapping patterns and nested alternatives are sampled at single values.",
      [HL, "spade-hir-lowering/src/pattern.rs", CG],
      [("pattern conditions and bindings", "spade-hir-lowering/src/pattern.rs"), ("match lowering", HL)], TV, NOTE),
    P("P08", "A match is accepted exactly when it covers every value",
      "The compiler accepts a match expression exactly when its unguarded patterns cover every value of the scrutinee type, and accepts a pattern in a binding or register exactly when it cannot fail. It never crashes on any pattern.",
      ["programs"], "every scrutinee type and list of patterns",
      "Tests hold about thirty examples; coverage is a question about all values, and the solver answers it for each program.",
      ["spade-hir-lowering/src/usefulness.rs", "spade-hir-lowering/src/pattern.rs"],
      [("usefulness algorithm", "spade-hir-lowering/src/usefulness.rs")],
      "z3 decides whether some value matches no pattern; its answer is compared with the compiler's verdict", NOTE),
    P("P09", "Calls bind arguments and every generic instance is its own",
      "A call or instantiation behaves as the body of the called unit with each argument bound to its own parameter, whether passed by position, by name or by shorthand, inlined or not. Each use of a generic unit behaves according to its own type and number arguments, whatever other instances exist in the same program, and calls whose arguments do not fit are rejected.",
      ["programs", "inputs"], "every parameter list, argument order and set of instances",
      SAMPLES + "instances of one generic at several types in one program are rarely mixed.",
      ["spade-hir-lowering/src/monomorphisation.rs", HL, "spade-typeinference/src/lib.rs", "spade-hir/src/symbol_table.rs"],
      [("argument matching", TI + "/lib.rs"), ("monomorphisation", "spade-hir-lowering/src/monomorphisation.rs")], TV, NOTE),
    P("P10", "Lambdas capture and compute like the code they stand for",
      "A lambda called with arguments gives the value of its body with its parameters bound to the arguments and everything else to what was visible where it was written. Lambdas passed to generic units and library combinators behave the same as written in place.",
      ["programs", "inputs"], "every lambda body, capture set and use",
      SAMPLES + "captures with shadowed names and repeated use are covered by few examples.",
      ["spade-hir-lowering/src/passes/lower_lambda_defs.rs", "spade-ast-lowering/src/lambda.rs"],
      [("lambda lowering", "spade-hir-lowering/src/passes/lower_lambda_defs.rs")], TV, NOTE),
    P("P11", "Type level numbers compute exactly",
      "Every type level expression over integers and booleans, including the helper giving the bits needed for a number, evaluates to its mathematical value wherever it is used: as a width, as a value, in a where clause or to choose a branch; division rounds towards zero, like that of values. A where clause is accepted exactly when it holds, and ill-formed type level computations are reported as errors, never as a crash.",
      ["programs"], "every type level expression and every instance of its parameters",
      "Unit tests evaluate a few constant expressions.",
      [TI + "/constraints.rs", TI + "/lib.rs", "spade-hir-lowering/src/passes/lower_type_level_if.rs"],
      [("constraint evaluation", TI + "/constraints.rs"), ("type level if lowering", "spade-hir-lowering/src/passes/lower_type_level_if.rs")], TV, NOTE),
    P("P12", "Method calls reach the implementation for the value's type",
      "A method call, operator or trait-bounded generic always runs the implementation given for the actual type of its receiver, including blanket implementations. Programs that need an implementation which does not exist, or that implement a trait wrongly or twice, are rejected.",
      ["programs", "inputs"], "every set of traits, implementations and receivers",
      SAMPLES + "dispatch among several implementors with blanket implementations is barely covered.",
      [TI + "/traits.rs", TI + "/method_resolution.rs", "spade-hir-lowering/src/passes/lower_methods.rs"],
      [("trait lookup", TI + "/traits.rs"), ("method lowering", "spade-hir-lowering/src/passes/lower_methods.rs")], TV, NOTE),
    P("P13", "Registers reset, start, hold and update as written",
      "A register takes its declared initial value at start, its reset value at a clock edge where its reset is active, and otherwise the value of its expression over the state before the edge. All registers of a clock update together; a register never changes between edges.",
      ["programs", "inputs", "histories"], "every register network, state, input sequence and reset timing",
      SAMPLES + "a simulation follows one history; the transition relation over all states is never examined.",
      [CG, HL, "spade-mir/src/eval.rs"], [("register statements", CG), ("constant evaluation of initial values", "spade-mir/src/eval.rs")], TVS, NOTE),
    P("P14", "Pipelines equal their stages with a register between each",
      "A pipeline's output and stage values equal, cycle by cycle and from every state, those of the same computation with every value registered once per stage it crosses. A disabled stage and all before it hold their contents, initial register contents and stage.valid and stage.ready follow the documented meaning, and sub-pipelines, stage references and labels refer to the stage they name.",
      ["programs", "inputs", "histories"], "every pipeline, stage condition, state and input sequence",
      SAMPLES + "stalls combined with references across stages are simulated for a handful of pipelines.",
      ["spade-hir-lowering/src/pipelines.rs", HL, CG], [("pipeline lowering", "spade-hir-lowering/src/pipelines.rs")], TVS, NOTE),
    P("P15", "Pipelines never use a value before its stage is ready",
      "A pipeline is accepted only if every value it uses is available in the stage of its use and sub-pipelines are used at their depth; a consistently staged one is accepted and its output depends on inputs of exactly the declared depth ago. Misstaged programs are rejected with an error, never a crash.",
      ["programs", "inputs", "histories"], "every assignment of values, blocks and sub-pipelines to stages",
      SAMPLES + "mistimed uses in conditions, blocks and patterns are not enumerated by tests.",
      ["spade-hir-lowering/src/pipelines.rs", "spade-hir-lowering/src/substitution.rs", TI + "/lib.rs"],
      [("availability checks", "spade-hir-lowering/src/pipelines.rs"), ("live values per stage", "spade-hir-lowering/src/substitution.rs")],
      "z3 decides equality of the accepted pipeline's output with the delayed function over unrolled cycles; verdicts compared with a timing model", NOTE),
    P("P16", "Optimisation passes do not change behaviour",
      "A program compiled with any combination of optimisation passes behaves, cycle by cycle and from every state, exactly as without them: same registers, resets, initial values and outputs.",
      ["programs", "inputs", "histories"], "every program, pass combination, state and input sequence",
      SAMPLES + "the passes have a few snapshot tests that pin text, not equivalence.",
      ["spade-mir/src/passes", "spade-mir/src/passes/split_compound_regs.rs"], [("register splitting", "spade-mir/src/passes/split_compound_regs.rs"), ("clock gating", "spade-mir/src/passes/enum_clock_gating.rs")], TVS, NOTE),
    P("P17", "Memories hold exactly what was written to them",
      "From any contents, at each clock edge a memory element takes the value of the last enabled write port addressing it and otherwise keeps its value; a read gives the current content of the addressed element; an initialised memory starts with exactly its declared contents. Memories whose initial contents or widths do not fit are rejected.",
      ["programs", "inputs", "histories"], "every memory shape, contents, port values and address",
      SAMPLES + "port priority, odd sizes and element types of one memory at a time are not crossed.",
      [CG, HL, "spade-mir/src/eval.rs", TI + "/lib.rs"], [("memory declarations", CG), ("memory address width", TI + "/lib.rs")], TVS, NOTE),
    P("P23", "The standard library's number functions compute what they document",
      "For every width and operand value, the numeric functions and methods of the standard library (absolute value, minimum, maximum, ordering, truncation, sign and zero extension, concatenation, interleaving, Gray codes, single bits, bit reductions, combinational division and remainder, defaults) give the mathematically defined result at the documented width, in the method, function and infix forms; uses that their signatures forbid are rejected.",
      ["programs", "inputs"], "every width, operand value and way of calling",
      SAMPLES + "the documentation examples fix one width and a few values.",
      ["spade-compiler/stdlib/num.spade", "spade-compiler/stdlib/ops.spade", "spade-compiler/stdlib/conv.spade", HL], [("number functions", "spade-compiler/stdlib/num.spade"), ("intrinsics", HL)], TV, NOTE),
    P("P24", "Standard library array, option and conversion functions do what they document",
      "For every element type, length and content, the array functions (map, fold, reduce, zip, unzip, concat, chunks, windows, flatten, interleave, split, reversal, shifts, quantifiers), the option functions (including the clocked ones), default values, and the conversions between numbers, bits and bytes give the documented result; uses whose lengths or types do not fit are rejected.",
      ["programs", "inputs", "histories"], "every element type, length, function argument and content",
      SAMPLES + "the documentation examples use short arrays of small numbers, one function at a time.",
      ["spade-compiler/stdlib/array.spade", "spade-compiler/stdlib/option.spade", "spade-compiler/stdlib/conv.spade", "spade-compiler/stdlib/default.spade"], [("array functions", "spade-compiler/stdlib/array.spade"), ("option functions", "spade-compiler/stdlib/option.spade"), ("conversions", "spade-compiler/stdlib/conv.spade")], TVS, NOTE),
    P("P25", "Standard library FIFOs and block memories lose, invent and reorder nothing",
      "A FIFO delivers exactly the accepted elements in the order they were written, ignores writes when full and acknowledgements when empty, reports a count that is never above what it holds, and after a quiet period reports fullness and content exactly, for every schedule of its two clocks. A dual port block memory gives, one read clock after the address, the last value written to it.",
      ["inputs", "histories", "schedules"], "every sequence of writes and reads, every schedule of the clocks",
      "The tests simulate one sequence with one clock schedule.",
      ["spade-compiler/stdlib/mem.spade", "spade-compiler/stdlib/cdc.spade", CG], [("FIFO and block memory", "spade-compiler/stdlib/mem.spade")], TVS, NOTE),
    P("P26", "Standard library clock crossings and edge detectors deliver what they document",
      "The edge detectors give one pulse per edge; the two stage synchronisers give their input two ticks later; a synchronised counter gives a value its source held; sync_wide shows only values its source held and shows a value that stays; a handshake turns each single pulse into one pulse of the same value. For every schedule of the two clocks.",
      ["inputs", "histories", "schedules"], "every input sequence and schedule of the clocks",
      "The crossings have no simulation tests over clock schedules.",
      ["spade-compiler/stdlib/cdc.spade", "spade-compiler/stdlib/io.spade"], [("clock crossings", "spade-compiler/stdlib/cdc.spade"), ("edge detectors", "spade-compiler/stdlib/io.spade")], TVS, NOTE),
    P("P21", "The netlist is well formed whatever names the source uses",
      "For every valid program the emitted Verilog is well formed: every identifier is declared once, every net has one driver, every instance names an existing module and its ports, no name is reserved, and widths of ports agree. This and the behaviour do not depend on the names chosen in the source, including names like those the compiler makes up.",
      ["programs", "inputs"], "every program and every consistent choice of names",
      "Tests use ordinary names, and the snapshot tests never ask whether two things got one name.",
      ["spade-mir/src/renaming.rs", CG, "spade-mir/src/codegen/util.rs", "spade-mir/src/unit_name.rs"],
      [("value names", "spade-mir/src/renaming.rs"), ("name escaping", "spade-mir/src/codegen/util.rs")], TV, NOTE),
    P("P18", "Values flowing backwards through inverted wires arrive where they were set",
      "For every program with inverted types (inv, ports, set), however such values are packed, sliced, renamed, passed through units and generics, viewed or returned, each wire carries what was set at its other end, in the stated direction, on exactly the bits of the module ports that belong to it.",
      ["programs", "inputs"], "every structure of two way types, every routing of its parts, every value",
      "Each construct runs its own code for the backward direction, so the combinations are many; tests cover a few ports with one set each.",
      [HL, CG, "spade-mir/src/codegen.rs", "spade-mir/src/passes/deduplicate_mut_wires.rs", "spade-types/src/lib.rs"],
      [("backward wires", CG), ("lowering of set and ports", HL)], TV, NOTE),
    P("P19", "A program is accepted only if every inverted wire is driven exactly once",
      "A program in which some inverted wire may be set twice or never is rejected, wherever the uses are (parts of aggregates, slices, calls, lambdas, generics, assertions, declarations); a program which uses each exactly once is accepted.",
      ["programs"], "every program and every way to use a wire twice or not at all",
      "The tests reject a dozen hand written programs; a missed path through any expression form gives hardware with two drivers or none.",
      ["spade-hir-lowering/src/linear_check/mod.rs", "spade-hir-lowering/src/linear_check/linear_state.rs"],
      [("linear check", "spade-hir-lowering/src/linear_check/mod.rs")], TVV, NOTE),
    P("P28", "A name means the declaration that the scoping rules give it",
      "Every name and path (items, use, aliases, modules, libraries, pub, pub(lib), pub(super), lib, self, super, locals, shadowing, decl, patterns, match arms, lambda captures, named arguments by short form) means what the scoping rules say; paths to what is not visible are rejected; operators and lambdas of a module do not change meaning with the names of the user's items or type parameters.",
      ["programs", "inputs"], "every tree of modules and libraries, every path, every nesting of scopes that use a name again",
      "Tests resolve single paths; wrong resolution silently gives other hardware, and depends on which names exist elsewhere.",
      ["spade-hir/src/symbol_table.rs", "spade-ast-lowering/src/lib.rs", "spade-ast-lowering/src/lambda.rs", "spade-ast-lowering/src/global_symbols.rs"],
      [("symbol table", "spade-hir/src/symbol_table.rs"), ("lambda lowering", "spade-ast-lowering/src/lambda.rs")], TV, NOTE),
    P("P32", "A program is accepted only if its types fit together",
      "A program in which any part has another type than its place needs (arguments, results, operands, branches, patterns, fields, registers, resets, clocks, generic uses, widths, array sizes, trait bounds and signatures, number and names of arguments, kind and depth of units) is rejected; a program whose types fit is accepted.",
      ["programs"], "every program and every place where a type can be wrong",
      "The tests reject hand written programs, each with one error in a simple context; a check missed in one form of expression lets hardware through in which bits are cut off or taken for something else.",
      ["spade-typeinference/src/lib.rs", "spade-typeinference/src/expression.rs", "spade-typeinference/src/requirements.rs", "spade-ast-lowering/src/impls.rs"],
      [("type inference", "spade-typeinference/src/expression.rs"), ("unification", "spade-typeinference/src/lib.rs")], TVV, NOTE),
    P("P22", "Values computed at compile time are those of the hardware",
      "A register or memory starts with exactly the value that the same constant expression has when it is computed by the hardware: for every type, number (signed, unsigned, wide, at the limits of its range), aggregate, enum value, sum, difference, negation and selection.",
      ["programs"], "every constant expression that is accepted as an initial value",
      "The tests evaluate a few small constants; the evaluator works on unbounded numbers, and differs from hardware just where values wrap, are wide, or have bits without meaning.",
      ["spade-mir/src/eval.rs", "spade-hir-lowering/src/lib.rs", CG],
      [("compile time evaluation", "spade-mir/src/eval.rs")], TVS, NOTE),
    P("P27", "Test benches read and drive exactly the parts of the hardware they name",
      "For every unit and every path to a field of an argument or of the result, the simulation extension gives the bits of the port that hold that field, in the direction the field has; an expression given for it stands for the value that expression has in the hardware, with only bits that have no meaning left open; a comparison with an expression succeeds for exactly the values equal to it; and expressions of other types are refused.",
      ["programs", "inputs"], "every port type, field path, expression and observed value",
      "The tests of the extension look at a few fields and literals; a wrong offset, order or padding in some type makes test benches pass or fail wrongly.",
      ["spade-simulation-ext/src/lib.rs", "spade-simulation-ext/src/field_ref.rs", "spade-simulation-ext/src/range.rs", "spade-mir/src/eval.rs"],
      [("field lookup and expressions", "spade-simulation-ext/src/lib.rs"), ("field directions", "spade-simulation-ext/src/field_ref.rs")], TV, NOTE),
    P("P29", "Assertions are checked, all of them and always",
      "For every assertion in a unit, and for every instance of that unit, the simulated hardware evaluates exactly the asserted condition on the values it refers to (at its pipeline stage, with the captures of a lambda, after inlining and optimisation), again whenever it changes; when it is false the simulation fails with a message that names the line of that assertion. Nothing else is checked, and nothing is left of it for synthesis.",
      ["programs", "inputs"], "every program with assertions and every input history",
      SAMPLES + "two snapshots show assertions; that they survive inlining, generics, lambdas, pipelines and constants is not tested.",
      [CG, HL, "spade-hir-lowering/src/inline.rs", "spade-mir/src/renaming.rs", "spade-mir/src/aliasing.rs", "spade-mir/src/assertion_codegen.rs"],
      [("code of assertions", CG), ("inlining", "spade-hir-lowering/src/inline.rs")], TVS, NOTE),
    P("P30", "Inout ports are driven exactly when the program writes to them",
      "An inout port carries, bit for bit, the value written to it (or to its elements) when that is `Some`, and is left to its surroundings otherwise; what is read is `None` while it is written and else the value on the wires. This holds through any number of units it is passed to, generic, inlined or not. An inout has one user, whose write has to be set, and is never part of another value.",
      ["programs", "inputs"], "every type, write and external value",
      SAMPLES + "one example drives three ports; other types, element wise access, nesting and misuse are not tested.",
      [CG, HL, "spade-hir-lowering/src/passes/disallow_inout_bindings.rs", "spade-compiler/stdlib/io.spade"],
      [("read_write", CG), ("where inouts may be", "spade-hir-lowering/src/passes/disallow_inout_bindings.rs")], TVS, NOTE),
    P("P31", "External units get what the program gives them",
      "A unit declared `extern` is instantiated as the Verilog module of its name (`#[no_mangle]`) or its path, once per call, with one parameter per number or string generic, of exactly the value the program gives it, and with every input, output and inverted wire connected, bit for bit, to the port named after the parameter. The ports of the top unit carry its parameters under the names and directions the program gives them. Kinds of units that cannot exist in Verilog are rejected.",
      ["programs", "inputs"], "every signature, parameter value and argument, whatever the external module computes from them",
      SAMPLES + "a handful of signatures are compared with stored text; nothing connects an external module to the program and observes the result.",
      [CG, "spade-mir/src/verilog.rs", HL, "spade-mir/src/unit_name.rs"],
      [("module instances", CG), ("external units", HL)], TVS, NOTE),
    P("P37", "Unsafe units are used only where the program says so",
      "A use of a unit marked `unsafe`, in whatever form and wherever in an expression, is accepted exactly when it is inside an `unsafe` block of the same body: neither being in an unsafe unit nor an unsafe block around a lambda is enough. An implementation is unsafe exactly where its trait says so. Unsafe blocks do not change what is computed.",
      ["programs", "inputs"], "every nesting of unsafe blocks, lambdas and other expressions around every form of use",
      SAMPLES + "a handful of programs call an unsafe function directly.",
      ["spade-ast-lowering/src/lib.rs", "spade-ast-lowering/src/impls.rs", HL, "spade-hir-lowering/src/passes/lower_methods.rs"],
      [("safety of a use", "spade-ast-lowering/src/lib.rs"), ("refusal of unsafe calls", HL), ("implementations", "spade-ast-lowering/src/impls.rs")], TV, NOTE),
    P("P38", "Included files mean what they contain",
      "An expression in a file named by `include!` means what it would in the place of the macro: its value, the names, stages and kind of unit around it; paths in it start at its own folder. It has to be one whole expression, and every error in it is reported. `include_bytes!` is the array of the bytes of the file.",
      ["programs", "inputs"], "every splitting of a program into files and folders, every input value",
      SAMPLES + "one or two small files are included.",
      ["spade-ast-lowering/src/lib.rs", "spade-parser/src/lib.rs"],
      [("include", "spade-ast-lowering/src/lib.rs"), ("expressions of a file", "spade-parser/src/expression.rs")], TV, NOTE),
    P("P39", "The spellings of a type mean what they are defined as",
      "An alias of a type (with parameters, bounds, and other aliases), a default type parameter that is left out, an associated type of a trait and `Self` stand for exactly the type their definition gives for the arguments at hand. Values may pass freely between spellings of one type, values of another type are refused at every place, and the bounds an alias or a parameter asks for are enforced.",
      ["programs", "inputs"], "every way to spell a type at every place a type is written, every value of that type",
      SAMPLES + "aliases of aliases up to a chain of three.",
      ["spade-typeinference/src/lib.rs", "spade-ast-lowering/src/lib.rs", "spade-ast-lowering/src/impls.rs", "spade-hir-lowering/src/mir_type_lowering.rs"],
      [("associated types", "spade-ast-lowering/src/impls.rs"), ("type expressions", "spade-typeinference/src/lib.rs"), ("concrete types", "spade-hir-lowering/src/mir_type_lowering.rs")], TV, NOTE),
    P("P40", "Only plain data is stored, chosen between and copied",
      "Whatever is kept in a register, carried through a pipeline stage, chosen by an if or a match or put in an enum has to be Data, and whatever is read through a view or used twice has to be Copy. A type is Data if nothing in it is a clock or an inverted wire, and Copy if nothing in it is inverted, however it is built from tuples, arrays, structs, enums, aliases and type parameters. A bound on Data or Copy is satisfied by exactly these types; everything else is refused, and nothing that satisfies the rule is.",
      ["programs"], "every type at every place of a program that stores, chooses or copies values",
      SAMPLES + "registers of inverted types appear in a few fixed forms.",
      ["spade-ast-lowering/src/auto_traits.rs", "spade-typeinference/src/lib.rs", "spade-typeinference/src/method_resolution.rs", "spade-compiler/core/marker.spade"],
      [("automatic implementations", "spade-ast-lowering/src/auto_traits.rs"), ("where Data is asked for", "spade-typeinference/src/lib.rs"), ("built in implementations", "spade-compiler/core/marker.spade")], TV, NOTE),
    P("P34", "Each register follows its own clock",
      "In a design with several clocks every register updates exactly at the edges of the clock it names, whatever the other clocks do at that time.",
      ["programs", "inputs", "schedules"], "every interleaving and coincidence of clock edges",
      SAMPLES + "multi clock designs appear in a couple of examples with one clock schedule.",
      [CG, HL], [("register statements", CG)], TVS, NOTE),
    P("P20", "Whole combinational programs mean what their source says",
      "The hardware emitted for any program made of functions, entities, data types, selection, lambdas and operators computes, for every input, the value the source denotes.",
      ["programs", "inputs"], "every composition of language features, every input value",
      "Feature interactions grow combinatorially; the tests exercise features mostly alone and at few values.",
      [HL, CG, "spade-hir-lowering/src/monomorphisation.rs", "spade-mir/src/passes"],
      [("lowering pipeline", "spade-compiler/src/lib.rs")], TV, NOTE),
]

NA = [
    P("P33", "Translated waveforms show the value of the signal",
      "For every Spade type and every sequence of simulator bits, the value shown for a signal in a translated waveform is the value those bits encode, with undefined and high impedance bits shown as such.",
      ["inputs"], "every type and bit string", "A few types and values are tested.", ["vcd-translate/src/translation.rs"], [("value translation", "vcd-translate/src/translation.rs")],
      note="Values are rendered by formatting big integers built from strings of simulator digits, through recursive functions over heap allocated types; neither the strings nor the formatting of numbers can be put before a solver here (the state explodes with two digits), and running them on chosen values would be testing. The bit layout they share with the compiler is decided by P05, P06 and P27."),
    P("P35", "No source text makes the compiler panic",
      "Whatever text is given to the compiler, it ends with Verilog or with diagnostics.",
      ["inputs"], "every text", "The tests compile a fixed set of texts.", ["spade-parser/src/lib.rs", "spade-compiler/src/lib.rs"], [("parser", "spade-parser/src/lib.rs")],
      note="Arbitrary text goes through a lexer, parser, type inference and diagnostics built on hash maps, strings and trait objects; symbolic execution of that does not get beyond a few bytes, where nothing is decided. A program of the other checks that makes the compiler panic is reported by the check it belongs to."),
    P("P36", "The output does not depend on how work is spread over threads",
      "The same project gives the same Verilog and diagnostics for every interleaving of the compiler's worker threads.",
      ["schedules"], "every schedule of the worker threads", "The tests run under whatever schedule comes up.", ["spade-compiler/src/lib.rs"], [("parallel local compilation", "spade-compiler/src/lib.rs")],
      note="The threads are rayon's and run the whole type inference and lowering between synchronisations (a shared type arena behind locks); no tool here makes the schedule of that code symbolic, and repeating runs would be testing."),
]


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS + NA:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], observe_at=p["observe"] or ["the Verilog produced for a program, or the compiler's verdict"], hook_needed=None),
            )) + "\n")
    man = dict(
        version=1,
        setup_cmd="./setup.sh",
        checks=[dict(
            property=p["id"], quick_cmd=f"./check.sh {p['id']}", thorough_cmd=f"VERIF_TIER=thorough ./check.sh {p['id']}", evidence_file=f"evidence/{p['id']}.json",
            technique=p["technique"], level=p["level"], level_note=p["note"]) for p in PROPS],
        not_applicable=[dict(property=p["id"], reason=p["note"]) for p in NA],
        notes="Every check builds the compiler in /repo's working tree (harness/ links it as a library), compiles programs with it, and decides its claims about the output with an SMT solver. No hooks in /repo are needed.",
    )
    json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    design()


def design():
    import sys
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    from design_notes import D
    t = open(os.path.join(ROOT, "tools/DESIGN.in.md")).read()
    o = "## Properties\n"
    for p in PROPS:
        spec, oracle, bounds, cost, beyond = D[p["id"]]
        o += f"\n### {p['id']} {p['title']}\n\n{p['statement']}\n\n- Programs: {spec}\n- Oracle: {oracle}\n- Bounds: {bounds}\n- Cost: {cost} (quick, 8 cores).\n- Beyond the tests: {beyond}.\n"
    kf = json.load(open(os.path.join(ROOT, "known_findings.json")))
    fixed = "\n".join("- " + x["entry"].replace("fixed: ", "") for x in kf if x["status"] == "fixed")
    known = "\n".join(f"- {x['property']} (`{x['case']}`): {x['what']}" for x in kf if x["status"] == "known") or "None."
    cf = os.path.join(ROOT, "tools/caught.json")
    caught = json.load(open(cf)) if os.path.exists(cf) else {}
    seeded = "| bug | property | what it breaks | needs | caught |\n|---|---|---|---|---|\n"
    sd = os.path.join(ROOT, "seeded")
    for n in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
        m = json.load(open(f"{sd}/{n}/meta.json"))
        seeded += f"| {n} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {'yes' if caught.get(n, {}).get('caught') else 'no'} |\n"
    na = "\n".join(f"- {p['id']} {p['title']}: {p['note']}" for p in NA) or "None."
    for k, v in (("PROPS", o), ("FIXED", fixed), ("KNOWN", known), ("SEEDED", seeded), ("NA", na)):
        t = t.replace(f"@@{k}@@", v)
    open(os.path.join(ROOT, "DESIGN.md"), "w").write(t)


main()
