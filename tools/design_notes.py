"""Per property: what is specified and generated, the oracle, the bounds, the cost, why it reaches further."""
D = {}


def d(id, spec, oracle, bounds, cost, beyond):
    D[id] = (spec, oracle, bounds, cost, beyond)


d("P01", "One unit per operator, sign and width (arithmetic, wrapping, comparison, bitwise, logical, unary), operators on bool arrays, operands that are literals on either side, comparisons of zero width values, multiplication of different widths, and nestings of two or three operators that would lose a carry or a sign if an intermediate width were wrong.",
  "Mathematical results as z3 bit-vector terms at the language's result width (vt/spec.py `binop`).",
  "Widths 1 to 129 (20 of them quick; 1-69 and up to 257 thorough); nesting depth 3; multiplication nested to 16 bits.", "about 30 s", "each program is decided for all operand values; tests simulate few values at small widths")
d("P02", "Shifts with variable, constant and nested amounts; division and remainder by constants (powers of two) and by the std functions; results nested in wider operators.", "z3 shl/lshr/ashr, sdiv/srem (truncated) and udiv/urem.", "Widths 1-65 quick (1-129 thorough); variable division to 33 bits quick.", "10-30 s", "all dividends, including the negative and the extreme ones, and all amounts, including those past the width")
d("P03", "Literals around every boundary of each type, in 23 contexts (arguments, patterns, fields, resets, lambdas ...), and sums assigned to types of other widths; the compiler's verdict is the observed behaviour.", "z3 decides whether the number is representable (`fits_formula`).", "Widths 0-256; integers to 2^260.", "100 s", "all contexts are crossed with all boundaries")
d("P04", "Every pair of binary operators, many triples and quadruples without parentheses, at operand types chosen so that the right grouping type checks; unary and postfix operators; literals in every notation.", "The precedence table of the language reference, written down in vt/props/lits.py; literal values from Python integers.", "Chains of up to 4 operators; literals to 256 bits (300 thorough).", "5-30 s", "equality is decided for all operand values, so that a grouping that differs for one value is found")
d("P05", "Enums of 1-12 variants with nested, zero sized, generic and wide payloads: construct, test, extract, update, pass through functions.", "Abstract enum values (tag plus payload tuples) of vt/spec.py, encoded only at the ports.", "Payload widths to 80 bits; nesting depth 3.", "40 s", "all payload values, arbitrary padding bits")
d("P06", "Nested tuples, structs and arrays: construction in every notation, projection, run-time indexing, ranges, concatenation, shorthand, destructuring.", "Element lists in vt/spec.py.", "Arrays to 17 elements, aggregates to 200 bits.", "60 s", "all element values, so that swaps between equal-looking elements are seen")
d("P07", "Random match expressions over random types with overlapping patterns, guards, `name @ pattern`, named fields, if-let chains, if chains, and composite selections.", "First-match semantics as nested z3 if-then-else terms.", "8 arms, patterns of depth 3.", "40 s", "decides all scrutinee and guard values")
d("P08", "Sets of patterns made by splitting a type's values and then removing, overlapping or guarding some; single patterns in let and reg; next to ports and clocks.", "z3 decides whether a valid value is matched by no unguarded pattern; the compiler has to accept exactly if there is none.", "24 arms, depth 4.", "45 s", "exhaustiveness is a claim over all values of the type; the solver answers it for every generated pattern set")
d("P09", "Calls with positional and named arguments in any order, generic functions with type, number and bool parameters, instances of one function at many types in one program, nested generics, where clauses, defaults.", "The called body evaluated on the bound arguments.", "5 parameters, nesting depth 3, 8 instances.", "35 s", "all argument values for every instance")
d("P10", "Lambdas of all kinds (fn, entity, pipeline), captures, shadowing, higher order functions from the library (map, fold, zip ...), lambdas in lambdas.", "The code the lambda stands for, evaluated in place.", "Lambda depth 2.", "25 s", "all argument and capture values")
d("P11", "Type level expressions over signed numbers, booleans and strings (arithmetic, bits_for, comparisons, logic) used as widths, sizes, values and conditions of gen if; where clauses, one or several, on functions, entities, pipelines, impls, methods, traits and external units, with parameters given or found from arguments; definite failures (negative sizes, division by zero).", "Python integers, rounding towards zero.", "Numbers to 2^70, expression depth 4.", "35 s", "crosses the operators with sizes, values and branches")
d("P12", "Traits with implementations for families of types that differ in one width, length or member; blanket and partly closed implementations; bounds; operators on user types; programs that no implementation is for.", "A table of which implementation is for which type, by structural matching in the generator.", "5 implementations of nested types of depth 3, up to 15 generic implementations.", "25 s", "which implementation runs is observed through hardware for all values")
d("P13", "Random state machines: registers of every type, resets, initial values, several registers that feed each other, patterns as register targets, nested units.", "A step function over abstract states.", "3 to 6 cycles from an arbitrary state, or from the initial values; widths to 40 bits.", "60 s", "all states and input sequences within the unrolling")
d("P14", "Random pipelines: values crossing stages, sub-pipelines, stage references and labels, stage conditions, stage.valid and stage.ready, initial contents; generic depth, methods, traits, lambdas.", "Each value as a function of the inputs of the cycle it started in, and explicit stage registers where conditions hold stages.", "Depth 0-6, up to 12 cycles.", "80 s", "all input sequences, stall patterns and initial contents")
d("P15", "Random pipelines with one staging mistake or none, hand written mistakes, and every kind of expression and statement with its parts late by each combination of 0, 1 and 2 stages.", "A timing model that gives every text its delay; for accepted pipelines the output is compared with the undelayed function by z3.", "Depth 0-5. Names bound by patterns inside an expression count as ready at once: late values that such a pattern takes apart are outside the claim of acceptance.", "90 s", "every expression form is crossed with every combination of delays")
d("P16", "State machines rich in enum and compound registers, compiled with each combination of optimisation passes, by attribute and by option, compared with the reference semantics.", "As P13.", "As P13.", "70 s", "equivalence from every state, including unreachable looking ones")
d("P17", "Memories of 1-20 elements, several write ports, reads, initial contents, element types, generics; malformed declarations.", "A list of elements updated port by port.", "3-4 cycles from arbitrary contents.", "45 s", "all contents, addresses, enables and data")
d("P22", "Registers `initial(e)` and memories with initial contents for random types and random constant expressions: literals in all bases at the limits of their range, aggregates, enum variants, sums, differences, negations, tuple and array selection, nested.", "The hardware the compiler emits for `fn c() -> T { e }`: its output, and the state before the first clock edge, are compared as values of T; memories at every address.", "Expressions of depth 3, numbers up to 128 bits, 8 memory cells. Constant expressions the compiler refuses as initial values are outside.", "10 s", "the values compared come from two independent parts of the compiler, for every combination of the generator")
d("P27", "Random units with arguments and results of nested structs (generic, with inverted parts at any level, tuples, arrays, enums, zero sized and wide members). Every path is asked for, in both orders; then values: constant expressions of the type of each port, as argument, field value and in comparisons.", "The emitted hardware. Ranges: for all port values, the bits in the range are the value of the hardware's own projection of that field (arguments), or of the part the unit was built from (results), in both directions. Values: the given bits, with free bits for X, are the hardware's value of the same expression; for all observed bits, the match condition of the comparison is equality of values. The real comparison is run on the solver's matching and differing witnesses, and on those with unknown and floating bits (a match only where any value is).", "Struct nesting of 3, 4 fields per struct. Only fields of structs can be named. The text that shows a value is outside (formatting), and expressions with operators the extension does not evaluate (it panics).", "100 s", "all values of ports of random types; not one test of the repository compares ranges with emitted hardware")
d("P29", "Random functions, methods, generic and inlined units, entities with registers, pipelines and lambdas with assertions among their statements, next to comments with quotes and percent signs, compiled with each set of optimisation passes.", "The generator's list of conditions, one per assertion and instance, as z3 terms over the input history; the emitted list is read from the Verilog. Per assertion, the number of instances that hold must be equal for every history; what is waited for, the message and the conditional compilation are read off the text.", "Up to 9 cycles, 60 assertions, conditions of depth 3. Assertions in the branches of if and match are left out (the language does not say whether they apply when the branch is not taken; they always do).", "about 60 s", "the condition is decided for all input histories, and its instances are counted")
d("P30", "Random units with inout ports of random types (one bit, zero size, arrays, enums), accessed whole or by element, through sub-units with mangled-free parameters, generic, inlined, positional or named, written with any expression of arguments, registers and what other ports read; 20 ways to use an inout, right and wrong.", "The net is `ite(written, payload, outside)` per element, as z3 terms; the emitted tri-state drivers are encoded with an enable and a value per bit, and the outside is a free variable.", "Up to 3 ports, arrays of 4, 6 registers, nesting 3.", "about 70 s", "all written and external values of each program; misuse is decided by the compiler's verdict")
d("P31", "Random programs around up to three external units: functions and entities, with and without clock, in modules, of any name, with 0-3 generic numbers and strings (up to 2^63, negative, quoted), sized by them or not, ports of any type in both directions, mangled or not; called by position, by name, through generic units of arithmetic on the parameter, inlined or not. 16 signatures, right and wrong. The ports of the top unit with and without #[no_mangle(all)].", "Each external module is given a stand-in, made for the exact parameters, in which every output bit is the xor of a different set of input bits and of a constant that depends on unit, parameters and port; the reference computes the same from the argument values. A swapped, missing or shifted connection, or another parameter, differs for some input.", "4 calls, 4 ports, values to 12 bits through generics.", "25 s", "all argument values, over random signatures")
d("P37", "Random expressions in which uses of safe and unsafe functions, entities, methods, associated functions, trait methods and generics are nested in unsafe blocks, plain blocks, branches, lambdas, calls, generated branches and units of their own; each place a value can be (register, reset, clock, stage condition, guard, index, assertion, set) with and without an unsafe block; every pair of safe and unsafe trait method and implementation.", "One boolean per context, equal to that around it, set by an unsafe block or cleared by a body; each use of an unsafe unit needs its context. Satisfiable programs must be accepted and compute the value of the expression, others must be rejected.", "Depth 3.", "17 s", "the rule holds for every nesting and form of use")
d("P38", "Random programs in which expressions, at any depth, are moved to files of their own in random folders (equal names in different folders, paths with `..`, spaces, comments around the expression), included files that include others; random byte contents used as arrays; forms that are and are not a whole expression, or are not allowed in the kind of unit around the macro.", "The generator's own value of the expression as if it had been written in place; the byte list.", "Depth 2-4 (5), up to 12 files, 33 bytes.", "35 s", "the value is decided for all inputs whatever the splitting into files")
d("P39", "Random types written in random equivalent ways (aliases, with parameters and of other aliases, defaults left out, associated types of traits, Self) at every place of a program that takes a type: parameters, results, lets, members, variants, trait members, bounds, other aliases. The same programs with another type put at one place; arguments that break a bound.", "The types with all spellings expanded by the generator, as terms over a datatype of types: places that hold one value must be equal (the solver decides whether they are); the value passed through all of them comes out unchanged, for all inputs.", "Default types are closed, and no number expressions in members, bounds, alias targets or defaults. Aliases as implementation targets and turbofish on the constructor of an alias are not claimed; nor is rebuilding a value whose parameters differ from the defaults through a constructor (which takes the defaults).", "40 s", "spellings nest at random; each claimed equality is decided for all values")
d("P40", "Random types (tuples, arrays, structs, enums, aliases with parameters, views, inverted types, clocks) used in about 60 kinds of place: registers of all forms, pipelines (parameters and bindings, wires or not), ifs and matches, lambdas, generics, bounds on functions, methods, traits, structs and aliases, enum members, dereferences, double uses; with at most one use of a type that is not Data or not Copy.", "The markers of every type as boolean equations over its parts; the places assert them. Programs whose equations are satisfiable must be accepted, others rejected.", "Tuples of up to 8 members (the language has no markers for longer ones). Whether a view is Data, parameters that appear in no member, inout and manual implementations of the markers are not claimed. Bounds on a type are claimed where a value of the type is used, not in members that are never accessed.", "35 s", "what a type is depends on everything it is built from, and the place can be anywhere")
d("P34", "State machines over 2-3 clocks, with arbitrary interleavings of edges.", "Each register steps exactly at its own clock's edges; which clocks tick in a cycle is symbolic.", "3 cycles, 3 clocks.", "40 s", "the schedule is a solver variable")
d("P20", "Random programs composed of all combinational features.", "The generator's own evaluation into z3 terms.", "Depth 5, about 60 nodes.", "150 s", "feature interactions, for all inputs")
d("P23", "Every function and method of std::num and std::ops at widths 1-65 (thorough: to 128), in its method, function and infix forms; malformed uses. Not div_pow2 (deprecated): its documented examples contradict its documented definition.", "The mathematical definition of each function, over bit-vectors; Gray decoding is the suffix parity.", "Division only to 9 bits (12).", "50 s", "all operand values, most negative numbers included")
d("P24", "Every function of std::array, std::option, std::conv and std::default on random types and lengths 0-9, alone and composed with each other and the language; clocked option functions; malformed uses.", "Lists: map, fold and so on over the reference value tree; lambdas are substituted.", "Clocked functions: window + 3 to 2n+3 cycles from power-on with resets at any time.", "45 s", "all contents and captured values; composition")
d("P25", "FIFOs of 2 and 4 (8) elements with one and two clocks, several element types; block memories of 2-5 elements.", "A log of accepted writes and two counters.", "5 reset cycles, then 12-14 (15-20) steps under any schedule of the two clocks. Register setup violations (metastability) are outside: a register read while it changes gives its old value.", "25 s", "schedules of two clocks and all operations at once")
d("P26", "Edge detectors, synchronisers, synchronised counters, sync_wide and handshake over several types, one and two clocks.", "Recorded history of the source; two ticks delay; pulse counting.", "Up to 36 steps; arrival is claimed after 22 (sync_wide) and 11 (handshake, pulses apart) steps in which both clocks tick. Metastability is outside.", "60 s", "schedules of two clocks")
d("P21", "Random combinational programs and state machines whose names are replaced, consistently, by Verilog keywords and by names of the forms the compiler makes up (port and instance names, numbered values and expressions); every such form against each kind of thing it could collide with; units of the same last name in modules, impls and generics.", "The netlist reader rejects undeclared, twice declared or doubly driven identifiers, reserved words, missing modules and ports; behaviour is compared as in P20.", "Depth 4; expression numbers from 1700 to 2700.", "60 s", "collisions need particular names, and the behaviour around them is decided for all inputs")
d("P18", "Random programs over values with inverted parts: ports, set, packing, unpacking, slices, views, copy views, inspect, transpose, array methods, generic identities, units and lambdas that take and return them.", "A graph of wires: each has one source, values are followed through it; compared at every port of the module in both directions.", "Aggregates of depth 2, 6-24 steps per program.", "40 s", "routing is generated freely and the values on all ports are decided for every input")
d("P19", "The programs of P18 with one fault put in at a random point (a linear value used twice, or never) and without; 50 fixed forms (lambdas, assertions, declarations, generics, registers); one use, none, and a use before, instead or after in each of about 70 places an expression can stand.", "The number of uses of each wire, known by construction; the solver decides whether a wire with other than one use exists.", "One fault per program.", "110 s", "faults are put anywhere in random programs")
d("P28", "Random projects of several libraries with nested modules (inline and in files), items of equal names, aliases of items, modules and enum variants, visibilities, paths of all kinds; random functions in which five names are bound again and again (let, patterns, arms, guards, decl, lambda parameters, captures, named arguments); modules in which an item of every kind, or a generic parameter, has a name the language itself uses.", "A resolver written from the rules (each step of a path visible from where it is used); each item computes something different, so meaning another one is a difference for some input. Invisible or missing targets must be rejected.", "Up to 4 libraries, depth 4; scopes nested to depth 4.", "110 s", "which declaration a name reaches depends on all other names; the values of all alternatives are compared for every input")
d("P32", "Random programs over structs, enums, generics, traits, lambdas, entities, pipelines, registers with at most one fault: something of another (near) type, another type annotation, number, pattern, argument list, kind of unit or signature at a random place.", "The typing rules as constraints over a datatype of types, decided by the solver: the program is typable iff they are satisfiable; unsatisfiable programs must be rejected, programs without fault accepted. A fault that leaves a typable program is not used.", "One fault per program; expressions of depth 3. Bodies of generic units count when they are used (Spade checks them then).", "120 s", "the fault can be anywhere in a random program, and no typing exists for it")
