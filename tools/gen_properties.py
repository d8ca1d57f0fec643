#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
                          "mechanism": [dict(name=n, where=w) for n, w in mech],
                          "observe_at": list(observe), "hook_needed": hook}})
E = "src/expr/"; C = E + "calc/"; R = "src/rel/"; O = R + "op/"

p("C01", "Decoding any byte string is safe",
  "Handing any byte string of any length to the expression decoder or to the relational-plan decoder ends either in success or in a reported exception. "
  "It never reads a byte outside the given range, crashes, hangs, or allocates memory out of proportion to the input. "
  "After a failed decode the object can still be decoded again with a valid program, which then behaves as on a fresh object, or be destroyed.",
  ["inputs", "histories"], "every byte string (random, truncated at every point, corrupted, huge counts and lengths), and every history of decodes on one object",
  "The tests decode only well-formed programs; there is no negative decode test at all, and the space of malformed inputs is unbounded.",
  [E+"operator_vector.cc", E+"codec.cc", E+"codec.h", R+"rel_runner.cc"],
  [("opcode switch with range-checked lookup tables", E+"operator_vector.cc OperatorVector::Decode"), ("bounded immediate decoding", E+"codec.cc"), ("count check before array allocation", E+"codec.h DecodeElements/DecodeArray/DecodeVector"), ("plan decode loop", R+"rel_runner.cc RelRunner::Decode")],
  [("operator vector", "the decoded program of one runner", E+"operator_vector.h")], ["Runner::Decode", "RelRunner::Decode"])
p("C02", "Exactly the implemented encodings are accepted, with correct framing",
  "The expression decoder accepts exactly the implemented operator encodings and operand types; an unknown operator, an unsupported type (such as a DECIMAL constant) or an unimplemented function number is rejected with an exception, never skipped or taken for another operator. "
  "Decoding stops right after the first end-of-expression byte standing at an operator position, or at the end of the input, and the returned position is exactly there; a zero byte inside an immediate never ends the expression. "
  "Plans are framed the same way: filter and projection expressions end at their end-of-expression byte, and an aggregation is accepted with or without its trailing end-of-expression byte.",
  ["inputs", "programs"], "every operator byte and second byte, every program, every placement of zero bytes inside immediates, every chain of plan operators",
  "Tests cover about 25 of the ~250 valid operator/type encodings, no invalid one, and never look at the returned position.",
  [E+"operator_vector.cc", E+"operators.cc", R+"rel_runner.cc"],
  [("opcode switch", E+"operator_vector.cc OperatorVector::Decode"), ("per-type operator tables", E+"operators.cc"), ("function table", E+"operators.cc OP_FUN"), ("plan decode loop", R+"rel_runner.cc RelRunner::Decode")],
  [], ["Runner::Decode return value and exception", "RelRunner::Decode return value and exception"])
p("C03", "Constants and indices decode to exactly the encoded value",
  "Every immediate decodes to exactly the value it encodes: variable-length integers of every length (modulo the width of the type, as in Protocol Buffers), negated integer constants, big-endian float and double bit patterns, and strings of any length and any bytes including zero bytes. "
  "Variable operators read the tuple element whose index was encoded. "
  "Decoding an immediate consumes exactly its own bytes.",
  ["inputs"], "every 32/64-bit integer and encoding length, every float/double bit pattern, every string",
  "Tests use about ten constants, all with one- to five-byte immediates and short ASCII strings.",
  [E+"codec.cc", E+"codec.h", E+"operator_vector.cc"],
  [("varint loop", E+"codec.cc DecodeVarint"), ("byte swap", E+"codec.cc DecodeValue<float/double>"), ("length-prefixed string", E+"codec.cc DecodeValue<String>"), ("negated constants", E+"operator_vector.cc CONST_N_*")],
  [], ["Runner::Get", "Runner::GetAll"])
p("C04", "A suffix program evaluates to the value of the expression it encodes",
  "Running a well-typed suffix program over a tuple leaves exactly one result per encoded expression, in the order the expressions were encoded, and each result equals the value of that expression computed operand by operand. "
  "Operands of non-commutative operators are taken in encoded order at any nesting depth. "
  "The type the runner declares is the type of the last operator's result whenever that result is not NULL.",
  ["programs", "inputs"], "every well-typed program (any depth, any mix of operators and types, any number of concatenated expressions) over every tuple",
  "Tests evaluate about 37 fixed expressions of at most three operators; compositions are unbounded and several-result programs are tried with one projection only.",
  [E+"runner.cc", E+"runner.h", E+"operand_stack.h", E+"operator.h", E+"operator.cc"],
  [("run loop", E+"runner.cc Runner::Run"), ("operand order in pop sequence", E+"operator.h BinaryOperator/TertiaryOperator"), ("stack", E+"operand_stack.h")],
  [("operand stack", "intermediate and final results", E+"operand_stack.h m_stack")], ["Runner::Get", "Runner::GetAll", "Runner::GetType"])
p("C05", "Evaluating any decoded program either yields values or throws",
  "Running any program that decoded successfully, over any tuple that has all the variables it names, ends in a result or in an exception: it never crashes, traps, hangs or touches invalid memory. "
  "That includes programs that are ill-typed or run out of operands, which must fail with an exception instead of computing on a wrong value, and the extreme operand values of every operator, such as dividing the smallest integer by -1. "
  "After such a failure the same runner evaluates the next tuple correctly.",
  ["programs", "inputs", "histories"], "every decodable program, well-formed or not, over every tuple",
  "Tests run only well-formed programs on benign values.",
  [E+"operand_stack.h", E+"operator.h", E+"operator.cc", C+"arithmetic.h", E+"runner.cc"],
  [("checked variant access", E+"operand.h Operand::GetValue"), ("underflow check", E+"operand_stack.h"), ("division guards", C+"arithmetic.h Div/Mod")],
  [("operand stack", "cleared at the start of every run", E+"operand_stack.h")], ["Runner::Run", "Runner::Get"])
p("C06", "NULL operands and division by zero yield NULL",
  "Every arithmetic, comparison, minimum/maximum, absolute value, conversion, mathematical and string operator yields NULL as soon as any one of its operands is NULL, whatever the other operands are, without an error. "
  "Dividing or taking the remainder by zero yields NULL for every numeric type that supports the operation. "
  "With non-NULL operands and a non-zero divisor these operators never yield NULL.",
  ["inputs", "programs"], "every operator, type, operand position and value of the other operands",
  "Only is_null(null) and two logical cases with NULL are tested; no strict operator is ever given a NULL except one float division.",
  [E+"operator.h", C+"arithmetic.h"],
  [("null test in operator templates", E+"operator.h UnaryOperator/BinaryOperator/BinaryOperatorV2/TertiaryOperator"), ("zero divisor test", C+"arithmetic.h Div/Mod")],
  [], ["Runner::Get"])
p("C07", "Logical operators follow three-valued logic",
  "NOT, AND and OR compute Kleene three-valued logic over TRUE, FALSE and NULL: AND is FALSE as soon as either operand is FALSE, OR is TRUE as soon as either is TRUE, otherwise a NULL operand makes the result NULL. "
  "IS_NULL, IS_TRUE and IS_FALSE never yield NULL: IS_TRUE and IS_FALSE are both false for NULL, exactly one of them is true for any other value, a number is true when it is not zero and a string is never true. "
  "The outcome does not depend on operand order, nesting or operand source.",
  ["inputs", "programs"], "all operand combinations per type, and all nestings of logical operators",
  "Three of the nine AND combinations, no OR, no NOT and two IS_* cases are tested.",
  [E+"operator.cc", C+"special.h", C+"special.cc"],
  [("NOT/AND/OR operators", E+"operator.cc"), ("IS_* predicates", C+"special.h")],
  [], ["Runner::Get"])
p("C08", "Integer arithmetic is exact modulo the width of the type",
  "Integer negation, addition, subtraction, multiplication and absolute value give the mathematically exact result reduced to two's complement of the operator's own type (32 or 64 bits). "
  "Division truncates toward zero and the remainder takes the sign of the dividend, for every pair with a non-zero divisor, including the smallest value divided by -1, which wraps to itself with remainder 0. "
  "64-bit operands are never narrowed on the way.",
  ["inputs"], "every pair of 32-bit and 64-bit integers",
  "Six integer sums and products of tiny numbers are tested; the input space is 2^64 and 2^128 pairs per operator.",
  [C+"arithmetic.h", C+"mathematic.cc", E+"operators.cc"],
  [("typed arithmetic templates", C+"arithmetic.h"), ("Abs specialisations", C+"mathematic.cc"), ("operator tables per type", E+"operators.cc")],
  [], ["Runner::Get"])
p("C09", "Floating-point arithmetic follows IEEE 754 in the operator's own precision",
  "Addition, subtraction, multiplication, division by a non-zero divisor, negation and absolute value on FLOAT and DOUBLE operands give the IEEE 754 round-to-nearest-even result in the precision of the operator's type, including signed zeros, infinities, subnormals and NaN. "
  "FLOAT operators neither lose nor gain precision by being computed in another type.",
  ["inputs"], "every pair of float and double values",
  "Two floating sums/quotients of ordinary values are tested.",
  [C+"arithmetic.h", C+"mathematic.cc", E+"operators.cc"],
  [("typed arithmetic templates", C+"arithmetic.h"), ("Abs specialisations", C+"mathematic.cc")],
  [], ["Runner::Get"])
p("C10", "Comparisons, MIN and MAX agree with one order per type",
  "For non-NULL operands of one type, the six comparisons agree with a single order: numeric order for numbers (NaN is unordered and unequal to everything), false before true, and bytewise unsigned lexicographic order for strings, where a proper prefix is smaller and zero bytes count. "
  "MIN and MAX return the operand that order makes smaller or larger, returning the first operand when the second is not strictly smaller or larger.",
  ["inputs"], "every pair of values of every comparable type",
  "Nine comparisons of fixed small values are tested; MIN and MAX are not tested at all.",
  [C+"relational.h", C+"mathematic.h", C+"mathematic.cc", E+"expr_string.h", E+"operators.cc"],
  [("comparison templates", C+"relational.h"), ("MIN/MAX", C+"mathematic.h"), ("string comparison", E+"expr_string.h")],
  [], ["Runner::Get"])
p("C11", "Conversions between types keep the documented value",
  "Conversions yield: 64-to-32-bit integer truncation modulo 2^32, rounding half away from zero for floating point to integer (within the 64-bit range), round-to-nearest-even for numbers to FLOAT or DOUBLE, zero/non-zero for numbers to BOOL, and 0/1 for BOOL to numbers. "
  "Numbers print to strings as decimal integers, or as decimal fractions rounded to 15 places without trailing zeros but with at least one fraction digit, and BOOL prints as true/false. "
  "Strings convert to numbers by their leading number after white space, to 0 when there is none, and with an error when it exceeds the range of the target; converting a type to itself changes nothing.",
  ["inputs"], "every source/target type pair and every source value",
  "About fifteen fixed conversions are tested, five of the thirty type pairs through the runner's operators none with a boundary value.",
  [C+"casting.h", C+"casting.cc", E+"operators.cc", E+"operator_vector.cc"],
  [("Cast specialisations", C+"casting.cc"), ("cast tables", E+"operators.cc OP_CAST"), ("same-type cast", E+"operator_vector.cc AddCastOperator")],
  [], ["Runner::Get"])
p("C12", "Checked conversions never return an out-of-range value silently",
  "A checked conversion to a 32- or 64-bit integer from a wider integer, FLOAT or DOUBLE returns the rounded value when it lies in the target's range and otherwise fails with a range error, also for NaN and infinities; a checked absolute value fails exactly for the smallest integer of its type. "
  "In every other case a checked operator gives the same result as the unchecked one.",
  ["inputs"], "every source value, in particular those around both ends of the target range",
  "Six out-of-range values are tested, always far outside the boundary, and never through the encoded operators; checked absolute value is untested.",
  [C+"casting.cc", C+"casting.h", C+"mathematic.cc", E+"operators.cc"],
  [("CastCheck specialisations", C+"casting.cc"), ("AbsCheck", C+"mathematic.cc"), ("checked tables", E+"operators.cc OP_CAST_CHECK/OP_ABS_CHECK")],
  [], ["Runner::Run", "Runner::Get"])
p("C13", "String functions return the specified part or image of the string",
  "CONCAT, LOWER, UPPER, LEFT, RIGHT, TRIM, LTRIM, RTRIM, SUBSTR and MID return exactly the bytes their definition selects for every string, including empty, all-blank and zero-containing ones, and every count or position: LEFT/RIGHT of a non-positive count are empty and of a large count the whole string; MID positions count from 1, or from the end when negative, and any position outside the string, or a non-positive length, gives the empty string; SUBSTR positions count from 0, with a negative start meaning 0 and an end beyond the string meaning its end. "
  "Only ASCII letters change case and only ASCII white space is trimmed. "
  "The argument strings themselves are never modified.",
  ["inputs"], "every string and every 32-bit count/position pair",
  "No string function is covered by any test.",
  [C+"string_fun.cc", C+"string_fun.h", E+"operators.cc"],
  [("string functions", C+"string_fun.cc"), ("function table", E+"operators.cc OP_FUN 0x21-0x2F")],
  [], ["Runner::Get"])
p("C14", "Mathematical function numbers compute the function they name",
  "Each mathematical function number computes the function documented for it on DOUBLE: CEIL and FLOOR exactly, and SIN, COS, TAN, ASIN, ACOS, ATAN, SINH, COSH, TANH, EXP and natural LOG to within a small relative error. "
  "Arguments outside a function's domain give NaN (or the infinite limit), not an error.",
  ["inputs"], "every function number and double argument",
  "No mathematical function is covered by any test.",
  [E+"operators.cc"], [("function table", E+"operators.cc OP_FUN 0x01-0x11")], [], ["Runner::Get"])
p("C15", "Evaluation is a pure function of program and bound tuple",
  "The result of a run depends only on the last decoded program and the bound tuple: repeating a run, running other tuples in between, rebinding, or decoding another program first does not change it. "
  "A run never modifies the bound tuple, its strings or the program's constants. "
  "Results already taken keep their value after further runs, re-decoding, or destruction of the runner and the tuple.",
  ["histories"], "every history of decode, bind, run, get and destroy on runners sharing tuples and strings",
  "Every test decodes, binds and runs once on a fresh runner.",
  [E+"runner.h", E+"runner.cc", E+"operator_vector.cc", E+"operand_stack.h", E+"expr_string.h"],
  [("stack cleared on run", E+"runner.cc Runner::Run"), ("program replaced on decode", E+"operator_vector.cc Decode/Release"), ("immutable shared strings", E+"expr_string.h")],
  [("operand stack", "results of the last run", E+"operand_stack.h"), ("bound tuple", "variables", E+"operand_stack.h m_tuple")], ["Runner::Get", "Runner::GetAll", "the bound tuple"])
p("R01", "Filters keep exactly the rows that are TRUE; projections map row by row",
  "A filter passes a row unchanged exactly when its condition is TRUE for that row, and drops it when the condition is FALSE or NULL. "
  "A projection turns each row into exactly the values of its expressions, in encoded order, as many as there are expressions. "
  "Rows are answered immediately, one by one and in order, and there is nothing left to fetch afterwards.",
  ["inputs", "programs", "histories"], "every condition and expression list, every row, every sequence of rows",
  "Six plans over nine fixed rows are tested.",
  [O+"filter_op.cc", O+"project_op.cc", E+"runner.cc", R+"rel_runner.cc"],
  [("filter step", O+"filter_op.cc FilterOp::Put"), ("projection step", O+"project_op.cc ProjectOp::Put"), ("all results", E+"runner.cc Runner::GetAll")],
  [], ["RelRunner::Put", "RelRunner::Get"])
p("R02", "Aggregates equal the fold of the rows that were put in",
  "When fetched, COUNT of rows equals the number of rows put in, COUNT of a column the number of its non-NULL values, and SUM, MIN and MAX the value obtained by adding or comparing the column's non-NULL values one after the other in input order in the column's own type. "
  "A column aggregate over rows that are all NULL is NULL. "
  "Each aggregate reads its own column and aggregates in one list do not influence each other.",
  ["inputs", "histories"], "every list of aggregates and every sequence of rows, with NULLs anywhere",
  "Three aggregations over one nine-row data set are tested, with one NULL at the end; MIN and MAX aggregates are never run.",
  [O+"agg.h", O+"agg.cc", O+"agg_op.cc", O+"ungrouped_agg_op.cc", R+"rel_runner.cc"],
  [("accumulation step", O+"agg.h CountAgg/CalcAgg"), ("row count", O+"agg.cc CountAllAgg"), ("aggregate list", O+"agg_op.cc AddToCache"), ("aggregate decoding", R+"rel_runner.cc DecodeValue<const Agg*>")],
  [("accumulators", "one value per aggregate", O+"ungrouped_agg_op.h m_cache, grouped_agg_op.h m_caches")], ["RelRunner::Get"])
p("R03", "Grouping yields exactly one result per distinct key",
  "Rows belong to the same group exactly when all their key columns are equal: equal in type and value, strings by content, NULL equal to NULL, and a NaN key equal to no other row. "
  "Fetching delivers exactly one row for every group that received a row, in any order, made of the key columns in encoded order followed by that group's aggregates, and then reports the end. "
  "No row is counted in two groups or in none.",
  ["inputs", "histories"], "every key column list (including repeated or no columns) and every sequence of rows",
  "One single-column string grouping of nine rows is tested, with an any-of comparison that would accept a group delivered twice.",
  [O+"grouped_agg_op.cc", O+"grouped_agg_op.h", E+"operand.h", E+"utils.cc", E+"expr_string.h"],
  [("group lookup by key tuple", O+"grouped_agg_op.cc GroupedAggOp::Put"), ("hash and equality of operands", E+"operand.h"), ("key and result building", E+"utils.cc MapTuple/ConcatTuple")],
  [("groups", "pending accumulators by key", O+"grouped_agg_op.h m_caches")], ["RelRunner::Put", "RelRunner::Get"])
p("R04", "A plan is the composition of its operators in encoded order",
  "A chain of filters, projections and aggregations of any length behaves as its operators connected in encoded order, each one's outputs being the next one's inputs: rows flow through immediately until an aggregation holds them back. "
  "Fetching pushes every pending result of an aggregation through all later operators before moving on, skips those that are filtered out without stopping early, lets a later aggregation absorb all of them first, and reports the end only when nothing is pending anywhere. "
  "The delivered rows, as a multiset, equal those of the corresponding relational query over the rows put in.",
  ["programs", "histories", "inputs"], "every chain of operators, every sequence of rows and fetches",
  "Three two-operator chains are tested and only one has an aggregation; none has an operator after an aggregation.",
  [O+"tandem_op.cc", R+"rel_runner.cc"],
  [("pairwise chaining", O+"tandem_op.cc TandemOp::Put/Get"), ("chain construction", R+"rel_runner.cc AppendOp")],
  [("chain", "nested pairs of operators", R+"rel_runner.h m_op")], ["RelRunner::Put", "RelRunner::Get"])
p("R05", "Every tuple has exactly one owner and is released exactly once",
  "A row put into a plan is either handed back as the returned row or released by the plan, exactly once, also when putting it throws. "
  "A returned row belongs to the caller alone: it stays valid and unchanged whatever happens to the plan later, and the plan never touches it again. "
  "Once the plan is destroyed or decoded again, with any amount of undelivered results and after any errors (failed decodes included), nothing it allocated or took over is left.",
  ["histories", "inputs", "fault_sequences"], "every plan, every history of put, get, re-decode and destroy, with evaluation errors at any row",
  "Tests run without a leak or use-after-free checker, never put a failing row, and never destroy a plan with pending results.",
  [R+"rel_runner.cc", R+"rel_runner.h", O+"filter_op.cc", O+"project_op.cc", O+"agg_op.cc", O+"grouped_agg_op.cc", O+"ungrouped_agg_op.cc", O+"tandem_op.cc", E+"operator_vector.cc", E+"codec.h"],
  [("delete after use in Put", O+"filter_op.cc, project_op.cc, agg_op.cc"), ("destructors", O+"*.cc"), ("release of decoded operators", E+"operator_vector.h Release"), ("release on re-decode", R+"rel_runner.h Release")],
  [("live tuples", "owned by the plan or by the caller", "src/rel")], ["allocation and release of the tuples, seen by the caller's allocator"])
p("R06", "Putting and fetching may be interleaved without losing or repeating rows",
  "Fetching hands out each pending result once and then reports the end, again and again, until more rows are put in. "
  "Rows put in after, or in the middle of, fetching accumulate from scratch for the groups already handed out and continue the groups still pending. "
  "Decoding a new plan discards everything pending from the old one.",
  ["histories"], "every interleaving of put, get and decode on one plan",
  "Every test puts all rows, then fetches all results, once.",
  [O+"grouped_agg_op.cc", O+"ungrouped_agg_op.cc", O+"tandem_op.cc", R+"rel_runner.cc"],
  [("erase on delivery", O+"grouped_agg_op.cc GroupedAggOp::Get"), ("reset on delivery", O+"ungrouped_agg_op.cc UngroupedAggOp::Get"), ("release on decode", R+"rel_runner.cc RelRunner::Decode")],
  [("pending results", "accumulators not yet delivered", O+"*_agg_op.h")], ["RelRunner::Put", "RelRunner::Get"])
p("R07", "A row that fails to evaluate has no effect on the others",
  "When a filter or projection fails on a row, the failure reaches the caller of that put or fetch as an exception, and the row contributes to no result. "
  "All results pending from other rows, and all rows put later, come out exactly as if the failing row had never been there.",
  ["fault_sequences", "histories", "inputs"], "every position of failing rows in every history over every chain",
  "No test makes a row fail.",
  [O+"filter_op.cc", O+"project_op.cc", O+"tandem_op.cc", E+"runner.cc"],
  [("stack cleared on run", E+"runner.cc"), ("evaluation before accumulation", O+"tandem_op.cc")],
  [("pending results", "accumulators", O+"*_agg_op.h")], ["RelRunner::Put", "RelRunner::Get"])
p("R08", "Separate runners do not influence each other",
  "Any number of expression runners and plans may be used alternately in one thread, or each from its own thread, decoded from the same or different programs: each behaves exactly as if it were alone. "
  "Concurrent use of separate objects involves no data race.",
  ["schedules", "histories"], "every interleaving of operations on several runners, in one thread or several",
  "Tests use one runner at a time in one thread.",
  [E+"operators.cc", E+"operator_vector.cc", E+"runner.h", R+"rel_runner.h"],
  [("stateless shared operators", E+"operators.cc"), ("per-runner stack", E+"runner.h m_operand_stack"), ("per-plan caches", O+"*_agg_op.h")],
  [("shared operator tables", "read-only after start-up", E+"operators.cc")], ["all public methods"])
p("U01", "Values compare, hash and copy by type and content",
  "Two operands are equal exactly when they have the same type and equal content (strings by bytes, NULL equal to NULL only), inequality is the negation, and equal operands and equal tuples have equal hashes. "
  "Building a tuple by concatenation or by column mapping yields exactly the selected values in order without changing the sources. "
  "Converting to and from optional host values and to and from hexadecimal text loses nothing.",
  ["inputs"], "every pair of operands and tuples, every byte string",
  "One pair of equal strings is hashed; nothing else is tested directly.",
  [E+"operand.h", E+"operand.cc", E+"utils.cc", E+"expr_string.h", E+"types.cc"],
  [("operand equality and hash", E+"operand.h"), ("tuple building", E+"utils.cc ConcatTuple/MapTuple"), ("optional adaptors", E+"operand.h any_optional_data_adaptor"), ("hex", E+"utils.cc")],
  [], ["Operand::operator==", "std::hash<Operand>", "std::hash<Tuple>", "ConcatTuple", "MapTuple"])
p("U02", "List values are carried unchanged and never computed on",
  "A column may hold a list of integers, booleans, floating-point numbers or strings. Variables, filters, projections, group keys and results carry it from the input row to the output with its type and elements unchanged, also when the runner, plan and source tuple are gone. "
  "It counts as non-NULL, equals another operand when both are the same list, differs from any operand of another type or with other elements, and converts to and from optional host values without loss. "
  "Any other operator applied to it together with non-NULL operands fails with an exception instead of computing on a wrong value.",
  ["inputs", "programs", "histories"], "every list, every operator and operand position, every plan that carries lists",
  "No test holds a list in a tuple; the list alternatives of the operand type are never instantiated by the tests.",
  [E+"operand.h", E+"operand_stack.h", E+"operator.h", R+"op/filter_op.cc", R+"op/project_op.cc", R+"op/grouped_agg_op.cc"],
  [("typed access to the operand variant", E+"operand.h Operand::GetValue"), ("untyped variable access", E+"operand_stack.h PushVar"), ("key mapping", E+"utils.cc MapTuple")],
  [], ["Runner::GetAll", "RelRunner::Put", "RelRunner::Get", "Operand::operator=="])
p("U03", "Types and operands print as documented text",
  "Writing an operand to a stream prints its value: decimal integers, numbers with up to six significant digits as C++ streams print them (exponent form below 1e-4 and from 1e6 on), 1 or 0 for BOOL, the bytes of a string including zero bytes, and (null) for NULL. "
  "The name of a type is the name of exactly that type, and UNKNOWN for any other code.",
  ["inputs"], "every operand of every scalar type, every type code",
  "Tests print operands only when they fail and look at no text.",
  [E+"operand.cc", E+"expr_string.cc", E+"types.cc"],
  [("stream output", E+"operand.cc operator<<"), ("type names", E+"types.cc TypeName")],
  [], ["operator<<(std::ostream &, const Operand &)", "TypeName"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
