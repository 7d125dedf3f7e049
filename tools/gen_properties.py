#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long records stay readable and diffable)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

HOOK = "src/verif_hook.rs (cfg symbolic_verif): public facade over the crate-private API of this binary crate"
NUM = ["src/smart_num/mod.rs", "src/smart_num/val_holder.rs", "src/smart_num/rational.rs"]

p("C01", "Integer and fraction arithmetic is exact or falls back to real, never wrong",
  "Adding, subtracting, multiplying, dividing (by a non-zero divisor) or negating integers and fractions yields the mathematically exact result whenever that result fits the number type (a 64-bit signed integer, or a sign with a 64-bit numerator and a 64-bit denominator in lowest terms), however large the intermediate products are. When it does not fit, the result is a double within rounding error of the exact result; number arithmetic never wraps around, loses the sign, or crashes. The outcome is the same in builds with and without overflow checking.",
  ["inputs", "configurations"], "all pairs of integers and fractions over the full 64-bit ranges, all operators, debug and release builds",
  "The tests use integers in -100..100 and fractions with the same small parts, compared with 1e-9 tolerance; nothing near the 2^31, 2^32, 2^53, 2^63 or 2^64 boundaries, and only the debug build.",
  NUM, [("RationalNum Add/Sub/Mul/Div/Neg", "src/smart_num/rational.rs"), ("SmartNumVal Add/Sub/Mul/Div/Neg", "src/smart_num/val_holder.rs"), ("zero/one shortcuts", "src/smart_num/mod.rs")],
  ["SmartNum and RationalNum operator results read back with to_i64, to_rational, to_f64"], hook=HOOK)
p("C02", "Arithmetic with a real operand agrees with double arithmetic",
  "When at least one operand is a real (a double, pi or e), adding, subtracting, multiplying, dividing or negating gives the double-precision result of the same operation on the operands' double values, up to the rounding of a fraction to a double. The only exceptions are the exact shortcuts: an exact zero times anything, or divided by a non-zero number, is exact zero; adding or subtracting an exact zero and multiplying by an exact one leave the other operand as it is.",
  ["inputs"], "all pairs of numbers with a real operand: every kind on the other side, in both positions, all magnitudes including subnormals and overflow to infinity",
  "The tests only use reals holding whole numbers in -100..100 against integers and reals; no fraction-real pair, no non-integral real, no pi or e operand is tested.",
  NUM, [("Real arms of SmartNumVal operators", "src/smart_num/val_holder.rs"), ("SmartNum shortcuts", "src/smart_num/mod.rs")],
  ["SmartNum operator results"], hook=HOOK)
p("C03", "Zero, one, pi and e are recognised exactly when the value is that constant",
  "A number or expression reports being zero, one, pi or e only if it has that value, and at most one of the four. Every exact zero or one is reported as such by whatever route it was produced: conversion from any primitive type, construction of a fraction (reduced or not), arithmetic, simplification, or the named constants. The named constants keep their identity when an exact zero is added or subtracted or when multiplied by an exact one.",
  ["inputs", "histories"], "all numbers and all histories of constructions and operations leading to them",
  "Tests check one addition or exp/ln identity per constant; whether the recognition flag stays true to the value after an arbitrary chain of operations is never checked.",
  NUM + ["src/smart_num/special_const.rs", "src/ast/op/operand.rs", "src/ast/tree.rs"],
  [("tagging on construction and after arithmetic", "src/smart_num/mod.rs From/new_rational/wrap_val"), ("is_zero/is_one on values", "src/smart_num/val_holder.rs")],
  ["is_zero/is_one/is_pi/is_e on numbers, operands and expressions"],
  state=[("constant tag", "which special constant a number is", "src/smart_num/mod.rs SmartNum.tag")], hook=HOOK)
p("C04", "Conversions into and out of numbers keep the value",
  "Converting any primitive integer or float into a number, operand or expression keeps its value, for every value of the type. Reading it back as integer, fraction or double returns that value (an integer view only for whole numbers that fit, a fraction view only for integers and fractions), and the reported sign of a non-zero finite number is the sign of its value. Constructing a fraction succeeds with the given parts exactly when the sign is 1 or -1 and the denominator is non-zero, and is refused otherwise.",
  ["inputs"], "all values of the ten convertible primitive types; all (sign, numerator, denominator) triples",
  "Tests convert a few small literals; boundary values of each type, u64 above i64::MAX and refused fractions are not tested.",
  NUM + ["src/ast/op/operand.rs", "src/ast/tree.rs"],
  [("From impls", "src/smart_num/val_holder.rs"), ("RationalNum::new", "src/smart_num/rational.rs"), ("to_i64/to_f64/to_rational/sign", "src/smart_num/mod.rs")],
  ["to_i64, to_f64, to_rational, sign, to_smart_num"], hook=HOOK)
p("C05", "Fractions from arithmetic are canonical; fraction equality is value equality",
  "Every fraction that results from adding, subtracting, multiplying or dividing two fractions (divisor non-zero) is in lowest terms, has a positive denominator and a sign of exactly 1 or -1; negating a fraction keeps its parts and flips its sign. Two fractions compare equal exactly when they denote the same rational value, reduced or not, and reducing a fraction keeps its value.",
  ["inputs", "histories"], "all fractions with 64-bit parts, reduced or not, and all chains of operations on them whose exact results are representable",
  "Tests compare a dozen hand-picked small fractions through the equality under test, which hides a non-reduced or sign-0 representation.",
  ["src/smart_num/rational.rs"], [("reduce, gcd", "src/smart_num/rational.rs"), ("PartialEq", "src/smart_num/rational.rs")],
  ["fields of RationalNum results; =="], state=[("sign/nominator/denominator", "the fraction's parts", "src/smart_num/rational.rs RationalNum")], hook=HOOK)
p("C06", "Dividing by an exact zero never yields an ordinary number",
  "Dividing any number, zero included, by an exact zero yields a number whose double value is infinite or not-a-number, that does not report being zero or one; it does not crash. The same holds when simplification evaluates a quotient of two numbers whose divisor is, or simplifies to, an exact zero.",
  ["inputs"], "all numerators of every number kind; divisors that are zero directly or after simplification",
  "Every division test skips zero divisors.",
  NUM + ["src/compute/num_aggregate/rules/div.rs"], [("Div", "src/smart_num/val_holder.rs, src/smart_num/rational.rs"), ("div_eval_rule", "src/compute/num_aggregate/rules/div.rs")],
  ["quotient's to_f64, is_zero, is_one"], hook=HOOK)
p("C07", "Approximate comparison means difference of values below the tolerance",
  "Comparing two numbers or numeric expressions for closeness with tolerance eps says yes when the absolute difference of their values is clearly below eps and no when it is clearly above (or, where all three are exact in double arithmetic, equal to it), for every mix of integer, fraction, real and named constant; it is symmetric, and a finite number is close to itself for every positive eps. Not-a-number is close to nothing, and an infinity is not close to anything finite or to the opposite infinity. Asking it of something that is not a number is refused with an error.",
  ["inputs"], "all pairs of numbers of all kinds and all tolerances, away from rounding distance of the threshold",
  "The comparison is the tests' own yardstick and is only ever asked where the answer is yes; a comparison that always says yes would pass them.",
  ["src/smart_num/mod.rs", "src/smart_num/val_holder.rs", "src/ast/tree.rs"], [("is_close", "src/smart_num/val_holder.rs"), ("Expression::near", "src/ast/tree.rs")],
  ["is_close, near results"], hook=HOOK)
p("C08", "A number's text denotes its value",
  "The text of an integer is its decimal digits with sign, of a fraction sign, numerator, slash, denominator, of a real its value rounded to three decimals, and of exact zero, exact one, pi and e their symbol; the same text is produced through every way of printing the number, operand or expression. Reading the text back therefore gives the exact value (for reals, to within half a thousandth), and numbers of different integer or fraction value never print alike.",
  ["inputs"], "all numbers of every kind, constructed or computed",
  "Tests print integers and whole reals in -100..100, pi and e; no fraction, negative fraction, large value or computed number is printed.",
  ["src/smart_num/mod.rs", "src/smart_num/val_holder.rs", "src/smart_num/rational.rs", "src/smart_num/special_const.rs", "src/ast/op/operand.rs"],
  [("Display impls", "src/smart_num")], ["to_string / format of SmartNum, RationalNum, operand, Expression"], hook=HOOK)
p("C09", "Simplification preserves the value of the expression",
  "Simplifying an expression yields an expression with the same value at every assignment of its variables at which every subexpression of the original is defined over the reals (0^0 counts as 1), exactly for integer and fraction arithmetic whose results fit and up to floating-point rounding otherwise. It introduces no variable that was not there.",
  ["inputs", "programs"], "all expressions over the ten operators, all variable assignments in the domain",
  "One closed arithmetic expression, six exp/ln identities and four one-operator sums are simplified in tests; special-case rules for cos, pow, neg, zero and one operands in all other combinations are untested.",
  ["src/compute/num_aggregate/mod.rs", "src/compute/num_aggregate/rules/*.rs"], [("per-operator evaluation rules", "src/compute/num_aggregate/rules")],
  ["num_aggregate input and output trees, evaluated at sampled points"], hook=HOOK)
p("C10", "Simplification folds all number arithmetic and never enlarges the expression",
  "After simplification no addition, subtraction, multiplication, division or negation has only numbers as operands; no addition or subtraction of an exact zero, multiplication by an exact zero or one, division of an exact zero, power with an exact zero or one as exponent or one as base, positive power of an exact zero, double negation written in the input, exp of 0 or 1, ln of 1 or e, sine or cosine of an exact zero or pi, exp of ln, or ln of exp remains. Excepted is a negation nested directly in a negation that came from subtracting from zero. Sine, cosine, exp and ln of other numbers stay symbolic, variable-free arithmetic becomes one number, and the result never has more nodes than the input. Simplifying the result again changes nothing (but for that exception), and derivatives, expansion coefficients and residuals come simplified in the same sense.",
  ["inputs", "programs"], "all expressions over the ten operators",
  "Tests check final values or two printed forms; whether folding reaches every position of a large tree, or ever grows it, is not checked.",
  ["src/compute/num_aggregate/mod.rs", "src/compute/num_aggregate/rules/*.rs"], [("recursive aggregation of children before the rule", "src/compute/num_aggregate/rules")],
  ["num_aggregate output tree, node counts"], hook=HOOK)
p("C11", "The printed form of an expression denotes that expression's value",
  "Reading the printed form of an expression with the usual conventions (^ binds tighter than / , * , then + and - ; equal operators of these group to the left; a power of a power is parenthesised; unary minus negates the following product, quotient or power; function names apply to the operand printed right after them) gives an expression with the same value at every assignment where the original is defined. In particular two expressions with the same printed form never differ in value (reals being printed to three decimals).",
  ["inputs", "programs"], "all expressions over the ten operators with distinct variable names, literals of every kind at every position",
  "About ten small expressions are printed in tests; nested operators of equal priority, negated sums, negative or fractional literals under powers and functions are not.",
  ["src/ast/tree.rs", "src/ast/op/operator.rs", "src/math_op/*.rs"], [("to_string_raw with operator priorities", "src/ast/tree.rs"), ("operator symbols and priorities", "src/math_op/*.rs")],
  ["to_string output, parsed by an independent reader"], hook=HOOK)
p("C12", "Substitution replaces every occurrence of the variable and nothing else",
  "Substituting an expression for a variable yields exactly the original tree with each occurrence of that variable, at any depth, replaced by the given expression and everything else unchanged: other variables (including those whose names merely contain or extend the name), numbers and operators with their operand order. Replacement is simultaneous: occurrences of the variable inside the inserted expression are not replaced again, and replacing an absent variable returns the original.",
  ["inputs", "programs"], "all expressions, variables and replacement expressions",
  "One substitution of a number into one four-leaf expression is tested.",
  ["src/compute/substitute/mod.rs"], [("recursive substitution", "src/compute/substitute/mod.rs")], ["substitute output tree"], hook=HOOK)
p("C13", "The derivative has the value of the true derivative",
  "Differentiating an expression with respect to a variable yields an expression that is defined and has the value of the true partial derivative at every point where the original is differentiable and every subexpression is differentiable over the reals, up to floating-point rounding and range. For powers this means a positive base, or a negative base with an integer exponent free of the variable, or a zero base with an exact non-negative integer literal as exponent. It holds for repeated differentiation and with respect to each variable of a several-variable expression.",
  ["inputs", "programs"], "all expressions over the ten operators, all variables, all points, repeated differentiation",
  "Six one- or two-operator derivatives are compared as strings; quotient, power, chain rule through nested functions, and higher derivatives are untested.",
  ["src/compute/derivative/mod.rs", "src/compute/derivative/rules/*.rs", "src/compute/num_aggregate/rules/*.rs"], [("per-operator derivative rules", "src/compute/derivative/rules"), ("aggregation after each rule", "src/compute/derivative/mod.rs")],
  ["derivative output evaluated at sampled points against forward-mode automatic differentiation of the input"], hook=HOOK)
p("C14", "What does not depend on the variable differentiates to exactly zero",
  "The derivative of an expression with respect to a variable that does not occur in it is the exact number zero (expressions dividing by, or taking the logarithm of, something that simplifies to zero excepted), and the derivative of the variable itself is the exact number one. A derivative never mentions a variable that the original does not contain, and the three ways of naming the variable (as variable, as expression, by reference) give the same result.",
  ["inputs", "programs"], "all expressions and variables, including names that are prefixes or case variants of one another",
  "No test differentiates a nontrivial expression free of the variable.",
  ["src/compute/derivative/mod.rs", "src/compute/derivative/rules/*.rs"], [("leaf rule comparing names", "src/compute/derivative/mod.rs"), ("zero elimination in aggregation", "src/compute/num_aggregate/rules")],
  ["derivative output tree"], hook=HOOK)
p("C15", "Taylor coefficients are the true ones",
  "Expanding an expression in a variable around a point to order n yields, for every k from 0 to n, the k-th coefficient equal in value to the k-th derivative at the point divided by k factorial, orders beyond 20 included, up to floating-point rounding and range. This holds at every assignment of the remaining variables for which the expression is analytic at the point and all subexpressions are defined there, powers with a base that is zero at the point having an exact non-negative integer literal as exponent.",
  ["inputs", "programs"], "all expressions, expansion points (numeric, named constants, symbolic), orders",
  "The one Taylor test only prints; no coefficient is compared with anything.",
  ["src/compute/taylor_expansion/partial_expansion.rs", "src/compute/derivative/rules/*.rs", "src/compute/substitute/mod.rs"], [("loop of substitute / factorial / derivative", "src/compute/taylor_expansion/partial_expansion.rs")],
  ["PartialExpansion.coefficient against independent power-series arithmetic"], hook=HOOK)
p("C16", "A Taylor expansion is complete and consistent across orders",
  "An expansion to order n has exactly n+1 coefficients, remembers its order, variable and expansion point unchanged, and carries as residual the (n+1)-th derivative. Its coefficients do not mention the expansion variable unless the expansion point does, and expanding to a higher order gives the same leading coefficients; both call forms give the same expansion.",
  ["inputs", "programs"], "all expressions, points and orders from 0",
  "No test looks at any field of an expansion.",
  ["src/compute/taylor_expansion/partial_expansion.rs"], [("PartialExpansion construction", "src/compute/taylor_expansion/partial_expansion.rs")],
  ["fields of PartialExpansion"], state=[("coefficient, order, of, at, residual", "the expansion", "PartialExpansion")], hook=HOOK)
p("C17", "The printed Taylor polynomial denotes the computed expansion",
  "Reading the printed form of an expansion gives a sum whose terms, at every point, add up to the sum of coefficient k times (variable minus point) to the k, followed by one remainder term O(...) whose exponent is the order plus one; terms whose coefficient is the exact number zero are left out and no others. The built-in demonstration program prints such expansions of exp at 0 and ln at 1 to order 5 with the true coefficients.",
  ["inputs", "programs"], "all expansions, including symbolic coefficients and points, coefficients put in by the caller, negative and fractional points",
  "The tests print one expansion and assert nothing about the text.",
  ["src/compute/taylor_expansion/partial_expansion.rs", "src/ast/tree.rs", "src/main.rs"], [("Display for PartialExpansion", "src/compute/taylor_expansion/partial_expansion.rs")],
  ["text of PartialExpansion; stdout of the program"], hook=HOOK)
p("C18", "Non-variables and non-numbers are refused with an error, never a crash",
  "Differentiating, substituting, expanding or taking a limit with respect to something that is not a variable (a number, a named constant or a compound expression) returns an error, and with respect to a variable differentiation, substitution and expansion return a result, for every expression. Asking for the numeric value of an expression that is not a number returns an error or nothing, and of one that is a number returns that number; error messages can be printed, and those of refused differentiation and expansion show what was refused.",
  ["inputs", "programs"], "all expressions in the place of the variable and of the operated-on expression",
  "Only to_smart_num on one variable is tested; no error path of derivative, substitution, expansion or limit is.",
  ["src/compute/derivative/mod.rs", "src/compute/substitute/mod.rs", "src/compute/taylor_expansion/partial_expansion.rs", "src/compute/limit/mod.rs", "src/ast/tree.rs", "src/ast/op/operand.rs"],
  [("conversion to Option<Variable> with ok_or", "those files"), ("ToSmartNum / ToRational", "src/ast/tree.rs")], ["Result values"], hook=HOOK)
p("C19", "A reported limit is the true limit",
  "When a limit of an expression is reported as a value, zero, infinity or bounded fluctuation, then near the point (numeric, named constant or symbolic, and for generic values of the other variables) the expression really approaches that value, approaches zero, grows without bound, or stays bounded, respectively, provided it is defined around the point. Excepted are expressions in which some value other than an exactly recognised number happens to equal zero at the point (such as sin(1) - sin(1), sin(2*pi), 0.5 - 0.5 in doubles, or y - y), which the library does not detect.",
  ["inputs", "programs"], "all such expressions, numeric, named-constant or symbolic points, and numbers of tries",
  "Three quotients of sine by power of x at 0 are tested; subtraction, negation, points other than 0, composed functions and nested quotients are not.",
  ["src/compute/limit/mod.rs", "src/compute/limit/limit_expression.rs", "src/compute/limit/rules/*.rs"], [("limit rules and l'Hopital loop", "src/compute/limit/rules"), ("limit class arithmetic", "src/compute/limit/limit_expression.rs")],
  ["recorded (expression, point, result) checked offline by high-precision evaluation near the point"], hook="src/compute/limit/mod.rs (cfg symbolic_verif): callable entry to the module-private limit trait; " + HOOK)
p("C20", "Limits reachable by the allowed number of differentiations are found",
  "If numerator and denominator of a quotient of polynomials, sines, cosines and exponentials vanish exactly recognisably at the point and at most n simultaneous differentiations make one of them non-zero there, then asking for the limit with n tries reports it instead of giving up. Sums, differences, products, negations, sines and cosines of sub-expressions with finite limits always have their limit reported, and so have exponentials of those, and powers and logarithms of what approaches a positive value. Allowing more tries never turns a reported limit into a different one.",
  ["inputs", "programs"], "all such quotients with numerator and denominator vanishing to order up to n, all n; all points",
  "Tests cover vanishing order 1 only, with one try.",
  ["src/compute/limit/rules/div.rs", "src/compute/limit/rules/*.rs"], [("for _ in 0..=order_try loop", "src/compute/limit/rules/div.rs")], ["limit result Ok/Err against vanishing order known by construction"], hook=HOOK)
p("C21", "Limit computation always returns",
  "Asking for a limit of any expression at any point with a small number of tries returns a limit or the error that none was found: it does not crash, recurse or loop without bound, whatever operators, singularities or indeterminate forms the expression contains.",
  ["inputs", "programs"], "all expressions over the ten operators, all points, tries 0 to 3",
  "No test takes the limit of a negation or subtraction, of a sum or product of infinities, of an oscillating argument or of exp, ln or a power.",
  ["src/compute/limit/mod.rs", "src/compute/limit/rules/*.rs"], [("tries budget", "src/compute/limit/rules/div.rs, add.rs, mul.rs")], ["return of the limit call under an allocation-counting work budget"], hook=HOOK)
p("C22", "Limit-class arithmetic is sound for every function in the class",
  "Adding, subtracting, multiplying, dividing or negating two limit classes (vanishing, unbounded, bounded, or approaching a given non-zero value) gives a class that really holds for the sum, difference, product, quotient or negation of every pair of functions in those classes, or the error that no class can be given. Forms that admit different outcomes (such as infinity minus infinity, zero times infinity, zero by zero) are always errors, and forms whose outcome the classes determine are reported (except where a bounded fluctuation is the divisor, and infinity divided by or multiplied with a bounded fluctuation may be an error). A value that is the exact number zero counts as vanishing in a quotient with a vanishing or bounded class.",
  ["inputs", "histories"], "all pairs of classes and all pairs of witness functions in them; chains of such operations",
  "The class arithmetic is only exercised through three limits.",
  ["src/compute/limit/limit_expression.rs"], [("Add/Sub/Mul/Div/Neg for LimitExpression", "src/compute/limit/limit_expression.rs")], ["LimitExpression operator results against witness functions evaluated near the point"], hook=HOOK)
p("C23", "Results depend only on the arguments, on any thread and after any history",
  "Simplifying, differentiating, substituting, expanding, taking limits, printing and number arithmetic give the same result for the same arguments however often, in whatever order and from however many threads at once they are called, without data races and without altering values shared or cloned before the call.",
  ["schedules", "histories"], "all call histories and thread interleavings over all operations",
  "Tests call each operation once, in its own process or thread, on values no one else holds.",
  ["src/compute", "src/ast", "src/smart_num", "src/math_op"], [("pure functions over owned trees; immutable statics only", "whole crate")],
  ["result digests of the same calls made alone, repeated, shuffled and concurrently; ThreadSanitizer and Miri reports"], hook=HOOK)
p("C24", "Work stays proportionate to the size of the expression",
  "Simplifying, substituting into, printing and converting an expression takes work and memory at most quadratic in its size (plus the size of the result), and differentiating once takes work at most cubic and yields an expression of at most quadratic size. A limit in which no indeterminate form comes up takes at most quadratic work, whether it exists or not, and an expansion no more than a few times its substitutions, simplifications and differentiations. Nested expressions hundreds of levels deep are handled without exhausting a default thread's stack.",
  ["inputs"], "all expression shapes: deep left, right and unary chains, balanced trees, up to thousands of nodes",
  "All tested expressions have fewer than ten nodes, where an exponential algorithm is indistinguishable from a linear one.",
  ["src/compute/num_aggregate", "src/compute/substitute", "src/compute/derivative", "src/compute/limit", "src/compute/taylor_expansion", "src/ast/tree.rs"], [("each rule visits each child once", "rules")], ["allocation counts and bytes per call; result sizes; completion on a default-size stack"], hook=HOOK)
p("C25", "No undefined behaviour or memory error on any operation",
  "Running any operation of the library on any valid input performs no undefined behaviour: no out-of-bounds or use-after-free access, no read of uninitialised memory, no leak of the memory it allocates once its results are dropped, no unchecked arithmetic overflow.",
  ["inputs", "programs"], "all operations on all expressions and numbers reached by the workloads",
  "Tests run without any sanitizer and without Miri.",
  ["src"], [("safe Rust throughout", "whole crate")], ["Miri and AddressSanitizer/LeakSanitizer reports, live-byte balance of a counting allocator, overflow-checked build"], hook=HOOK)
p("C26", "Building an expression yields exactly the requested operator over its operands",
  "Applying an arithmetic operator, power, negation or function to operands yields an expression whose root is that operation and whose operands are the given ones unchanged, in the given order, without evaluating anything; conversion of numbers and variables yields the corresponding leaf. The inspection predicates (is it a number, an operand, an operator, the variable it holds) agree with how it was built.",
  ["inputs", "programs"], "all operators, all operand expressions, every accepted argument type of the function and power builders",
  "Tests check the printed text of about ten one-operator expressions.",
  ["src/math_op/*.rs", "src/ast/tree.rs", "src/ast/op/operand.rs", "src/ast/op/operator.rs"], [("operator constructors", "src/math_op")], ["root and child of built expressions"], hook=HOOK)
p("C27", "Names of variables carry no meaning",
  "Renaming the variables of an expression one-to-one and then simplifying, differentiating, substituting, expanding, taking a limit, printing or inspecting gives the renamed result of doing so before the renaming, whatever the names are: no name is special, two variables are the same exactly when their whole names are equal, and neither the order, the length, the letters nor the case of names changes a result.",
  ["inputs", "programs"], "all expressions, all operations, all one-to-one renamings to names of any length and alphabet",
  "Tests use the names x, y and z only, most of them x alone.",
  ["src/ast/op/operand.rs", "src/compute", "src/ast/tree.rs"], [("variable comparison", "src/ast/op/operand.rs, src/compute/substitute, src/compute/derivative"), ("printing", "src/ast/op/operand.rs")],
  ["result trees and texts of an operation before and after a renaming"], hook=HOOK)
p("C28", "Sequences of operations mean the composition of their meanings",
  "Taking the result of one operation as the argument of the next (simplifying, differentiating, substituting, combining with other expressions, applying functions, taking coefficients of an expansion or a limit, in any order) gives an expression whose value, wherever every intermediate expression is defined, is that of the composed mathematical operations. What an operation does depends only on the tree it is given, not on how that tree came about, and leaves all earlier results as they were.",
  ["inputs", "histories"], "all sequences of operations from all starting expressions, at all points where all intermediate expressions are defined",
  "Each test calls one operation on a freshly written expression; hardly any test feeds a result into another operation, and none compares it with the same tree written anew.",
  ["src/compute", "src/ast", "src/smart_num", "src/math_op"], [("every operation consumes and yields the same kind of tree", "src/ast/tree.rs, src/compute")],
  ["results after each step: tree against that from a rebuilt argument, value against a reference model, earlier results"], hook=HOOK)
p("C29", "Results do not depend on how the crate was built",
  "Every operation (number arithmetic and comparison, simplification, differentiation, substitution, expansion, limits, printing) gives the same result, or the same refusal, in a build with debug assertions and overflow checks and in an optimised build without them; no result, check or effect exists in only one of the two.",
  ["configurations", "inputs"], "all operations on all arguments, in the debug and the release profile",
  "Tests run in the debug profile only.",
  ["src"], [("no debug_assert or overflow on which a result depends", "whole crate")],
  ["result of every call in both builds"], hook=HOOK)
p("C30", "A limit is reported in final form and reads as what it is",
  "A limit that is found is one of four things: vanishing, infinite, bounded oscillation or a value. A value is never the exact zero (that is vanishing), is already simplified (unless a double negation is left, simplifying it again changes nothing), and depends neither on the limit variable, unless the point does, nor on any variable that occurs neither in the expression nor in the point. Vanishing reads 0, infinity reads infinity, bounded oscillation reads ~, and a value reads exactly as the expression it is; copies read the same. Naming the variable by value or by reference makes no difference to any of this.",
  ["inputs"], "limits of all expressions at all points with any number of tries",
  "The form of the result depends on the rule that produced it; tests print a few results of a few rules.",
  ["src/compute/limit"], [("LimitExpression::Normal", "src/compute/limit/limit_expression.rs"), ("LimitTry for Expression", "src/compute/limit/mod.rs")],
  ["kind, tree and text of every limit found, by both ways of naming the variable"], hook=HOOK)
with open(OUT, "w") as f:
    for r in P: f.write(json.dumps(r, ensure_ascii=False) + "\n")
print(len(P), "properties")
