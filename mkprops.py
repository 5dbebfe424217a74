#!/usr/bin/env python3
"""Generates properties.jsonl (one place to keep the wording)."""
import json
I="include/bignum/impl/"
TY=I+"bn_type_impl.h"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},
              "why_tests_cant":why,"anchors":a})
TESTS="The three tests only print results and assert nothing; they exercise one hand-written operand pair per radix (three digits), one long base-10 pair and one text file, so "
ST=[("descriptor","sign / NaN / infinity state","include/bignum/bn_type.h"),("numData","digits, least significant first","include/bignum/bn_type.h")]
ALLT="all pairs of numbers, of every length and sign, in each of the seven shipped digit systems (2, 8, 10, 16, 2^8, 2^16, 2^32)"

p("C01","Sums of finite numbers are exact",
 "For any two finite numbers without leading zero digits, of any length and any combination of signs, in every shipped digit system, `a + b` and `a += b` yield exactly the mathematical sum: sign, every digit and every carry, including carries that ripple into a new digit.",
 ["inputs","configurations"],"for "+ALLT,TESTS+"no carry pattern, length or sign combination beyond those is ever reached and a wrong digit would not fail them.",
 [TY,I+"bn_addition_impl.h",I+"bn_subtraction_impl.h",I+"bn_compare_impl.h"],
 [("operator+= sign dispatch",TY),("abs_val_add carry loop",I+"bn_addition_impl.h"),("abs_val_sub borrow loop",I+"bn_subtraction_impl.h")],ST,["operator +","operator +="])
p("C02","Differences of finite numbers are exact",
 "For any two finite numbers without leading zero digits, of any length and any combination of signs, in every shipped digit system, `a - b` and `a -= b` yield exactly the mathematical difference, whichever operand has the larger magnitude and however far a borrow ripples.",
 ["inputs","configurations"],"for "+ALLT,TESTS+"mixed signs, equal magnitudes and long borrow chains are not decided.",
 [TY,I+"bn_subtraction_impl.h",I+"bn_addition_impl.h",I+"bn_compare_impl.h"],
 [("operator-= sign dispatch",TY),("abs_val_sub borrow loop",I+"bn_subtraction_impl.h"),("abs_val_is_ge/gt choosing the larger",I+"bn_compare_impl.h")],ST,["operator -","operator -="])
p("C03","Quotients are exact, truncated towards zero",
 "For any finite numbers a and b without leading zero digits, b not zero, in every shipped digit system, `a / b` and `a /= b` yield the mathematical quotient truncated towards zero: zero when |a| < |b|, one in magnitude when |a| = |b|, and the sign of the quotient is negative exactly when it is not zero and the operands' signs differ.",
 ["inputs","configurations"],"for "+ALLT+" with a non-zero divisor",TESTS+"the equal-magnitude case, the native digit types and most quotient shapes are never run.",
 [TY,I+"bn_division_impl.h",I+"bn_subtraction_impl.h",I+"bn_addition_impl.h",I+"bn_compare_impl.h"],
 [("operator/= guards and sign",TY),("shift-and-subtract division",I+"bn_division_impl.h")],ST,["operator /","operator /="])
p("C04","Products of finite numbers are exact",
 "For any two finite numbers without leading zero digits, of any length and sign, in every shipped digit system, `a * b` and `a *= b` yield exactly the mathematical product, with a negative sign exactly when the product is not zero and the signs differ; both published multiplication routines agree with it.",
 ["inputs","configurations"],"for "+ALLT,TESTS+"digit widths where a convolution sum or a product of digits outgrows the accumulator are never multiplied.",
 [TY,I+"bn_multiplication_impl.h",I+"fourier_impl.h"],
 [("operator*= sign rule",TY),("mul_strassen carry stage",I+"bn_multiplication_impl.h"),("mul_naive",I+"bn_multiplication_impl.h"),("FFT convolution",I+"fourier_impl.h")],ST,["operator *","operator *=","mul_strassen","mul_naive"])
p("C05","Relational operators follow the numeric order",
 "For any two numbers without leading zero digits and with non-negative zero, ==, !=, <, <=, > and >= agree with the mathematical order of the signed values: exactly one of <, ==, > holds for finite operands, <= and >= are their complements, every finite number lies strictly between minus and plus infinity, and the four orderings are false when an operand is NaN.",
 ["inputs","configurations"],"for all pairs of numbers, finite or not, of every length and sign in each shipped digit system",TESTS+"only three-digit against two-digit numbers of opposite sign are ever compared.",
 [TY,I+"bn_compare_impl.h"],
 [("operator== != > >= < <=",TY),("abs_val_is_eq/gt/ge/lt/le",I+"bn_compare_impl.h")],ST,["operator ==","operator !=","operator <","operator <=","operator >","operator >="])
p("C06","Arithmetic results are canonical",
 "Whenever +, -, *, / (binary or compound) are applied to finite numbers without leading zero digits and with non-negative zero, the finite result has no leading zero digit, every digit is smaller than the radix, and a zero result is the one non-negative zero with no digits, so it compares equal to every other zero.",
 ["inputs","configurations"],"for "+ALLT,TESTS+"the printed form hides both a stored zero digit and a zero with a minus sign.",
 [TY,I+"bn_addition_impl.h",I+"bn_subtraction_impl.h",I+"bn_multiplication_impl.h",I+"bn_division_impl.h"],
 [("trim after subtraction",I+"bn_subtraction_impl.h"),("trim after multiplication",I+"bn_multiplication_impl.h"),("sign of the result",TY)],ST,["numData","descriptor"])
p("C07","Division by zero yields a signed infinity",
 "Dividing any finite number by zero, stored without digits or as a single zero digit, terminates without reading or writing outside the digits and yields an infinity without digits whose sign is the sign rule of division applied to the operands.",
 ["inputs"],"for all finite dividends and both stored forms of zero (no digits, one zero digit)","No test divides by zero.",
 [TY,I+"bn_division_impl.h"],[("zero-divisor guard in operator/=",TY)],ST,["operator /","operator /="])
p("C08","NaN and infinities never turn back into finite numbers",
 "If either operand of +, - or * (binary or compound), or the left operand of /, is NaN or an infinity, the result is not finite and carries no digits; if either operand of any of the four operations is NaN the result is NaN; a finite number divided by an infinity is zero.",
 ["inputs","histories"],"for all operand pairs with at least one non-finite operand, hence along any history of operations after the first non-finite value","No test builds a non-finite number.",
 [TY],[("isComputable guards of the compound operators",TY)],ST,["descriptor","isNan","isInfinite"])
p("C09","Operators do not modify their operands",
 "The binary operators +, -, *, / leave both operands unchanged and return what the corresponding compound operator would store, compound operators leave their right operand unchanged when it is a distinct object and return a reference to the left operand, and comparisons, queries and printing modify nothing.",
 ["inputs","histories"],"for every operator, every operand pair and every path through the operator",TESTS+"nothing checks an operand after use.",
 [TY,"include/bignum/bn_type.h",I+"bn_multiplication_impl.h",I+"bn_compare_impl.h"],
 [("binary operators copy *this then use the compound operator",TY)],ST,["both operands after each operator"])
p("C10","An operand may be combined with itself",
 "For every finite number x without leading zero digits, x += x, x -= x, x *= x and x /= x (the same object on both sides) give the same result as using a separate copy of x on the right, and terminate.",
 ["inputs"],"for all finite x, in each shipped digit system","No test uses one object on both sides.",
 [TY,I+"bn_addition_impl.h",I+"bn_subtraction_impl.h",I+"bn_division_impl.h",I+"bn_multiplication_impl.h"],
 [("read before write at each index",I+"bn_addition_impl.h"),("temporaries in the compound operators",TY)],ST)
p("C11","A failed operation reports its cause and leaves a usable state",
 "If an allocation or other standard exception interrupts a compound arithmetic operation, the caller receives that same exception object with its dynamic type intact, the right operand (when distinct) is unmodified, and the left operand has become an infinity without digits.",
 ["fault_sequences"],"for every point inside +=, -=, *=, /= at which a standard exception can be thrown","No test makes an allocation fail.",
 [TY],[("catch blocks of the four compound operators",TY)],ST,["exception type at the caller","descriptor","numData"])
p("C12","Digits are only accessed inside the stored digits",
 "No arithmetic, relational, printing, construction, copying or transform operation of the library on well-formed numbers reads or writes a digit (or a transform coefficient) outside the current bounds of the container that holds it, for operands of any length including empty ones; the editing members (push, pop, element access) do so only when the addressed digit does not exist.",
 ["inputs","configurations"],"for every element access in the library, operands of every length including zero, each shipped digit system","The tests never use an operand without digits and run without bounds checking.",
 [I+"bn_addition_impl.h",I+"bn_subtraction_impl.h",I+"bn_compare_impl.h",I+"bn_multiplication_impl.h",I+"bn_division_impl.h",I+"fourier_impl.h",TY],
 [("loop bounds on size()",I+"bn_compare_impl.h"),("zero padding of the FFT table",I+"fourier_impl.h")])
p("C13","Subscripting is range-checked",
 "Subscripting a number, const or not, with an index below its digit count gives exactly that digit, and with any other index throws before any digit is touched.",
 ["inputs"],"for every index and every number","No test subscripts out of range.",
 [TY,"src/bn_except.cpp","include/bignum/bn_except.h"],[("BN_ASSERT in both operator[]",TY)])
p("C14","Distinct numbers can be used from different threads",
 "The library keeps no writable state outside the objects passed to it, so operations on distinct numbers neither interfere with each other nor depend on earlier calls.",
 ["schedules","histories"],"for every interleaving and every history of calls on distinct objects","The tests are single-threaded and check no result.",
 [TY,I+"bn_addition_impl.h",I+"bn_multiplication_impl.h",I+"fourier_impl.h","src/bn_except.cpp"],[("only constants have static storage",TY)])
p("C15","The digit wrapper behaves like the integer it wraps",
 "For every shipped wrapped digit type, each arithmetic, bitwise, shift, comparison, increment, decrement, unary, assignment, conversion and stream operator of the wrapper, in every operand order and compound form, gives the same value as the built-in operator on the wrapped integers converted back to the wrapped type, and modifies only its left operand where it is an assignment.",
 ["inputs","configurations"],"for every operator overload, every wrapped integer type and all operand values","The integer test prints results for one random pair of one instantiation and asserts nothing.",
 ["include/bignum/bn_int_type.h",I+"bn_int_type_impl.h","src/bn_int_type.cpp"],[("operator macros",I+"bn_int_type_impl.h")])
p("C16","Radix limits match the advertised digit systems",
 "Each advertised digit system publishes the smallest digit 0 and the largest digit radix-1 (2, 8, 10, 16, 2^8, 2^16, 2^32), each double-precision digit type publishes 0 and radix squared minus 1, and the intermediate type of each system can represent the sum of two digits plus a carry and tell a borrow from a digit.",
 ["configurations"],"for every shipped limits type and digit type","No test compares the limits with the radix.",
 ["include/bignum/bn_limits.h",I+"bn_limits_impl.h","src/bn_limits.cpp"],[("bn_min_limit / bn_max_limit tables",I+"bn_limits_impl.h")])
p("C17","Every advertised type is delivered by the library",
 "Every class template specialisation that the public headers declare as compiled elsewhere has all of its members defined in the library, so a program using any advertised number, limits or digit type links.",
 ["configurations","programs"],"for every advertised specialisation and every member","The tests use four of the seven number types.",
 ["include/bignum/bignum.h","include/bignum/bn_int_type.h","include/bignum/bn_limits.h","src/bn_type.cpp","src/bn_int_type.cpp","src/bn_limits.cpp"],[("BN_DECLARE_* / BN_DEFINE_* pairs","include/bignum/bn_setup.h")])
p("C18","Printing shows sign, then digits from the most significant",
 "Printing a number writes +INF, -INF or NaN for the non-finite states, otherwise a minus sign exactly for negative numbers followed by 0 if there are no digits or else every stored digit once, from the most significant to the least, each as a decimal number in every shipped digit system.",
 ["inputs","configurations"],"for all numbers in each shipped digit system","The tests print but nobody compares the text.",
 [TY,I+"bn_int_type_impl.h"],[("operator<<",TY)])
p("C19","Construction from digits keeps exactly the given value",
 "Constructing a number from a sign and a list of digits (most significant first) stores exactly the listed value with leading zeros removed, keeps the given state, and gives the one non-negative zero when every listed digit is zero or the list is empty; a number built as NaN or infinity has no digits.",
 ["inputs","configurations"],"for all digit lists and states in each shipped digit system",TESTS+"lists with several leading zeros or only zeros are not decided.",
 [TY],[("initializer-list constructor",TY)],ST)
p("C20","State queries and setters agree with the stored state",
 "For each of the five states (positive, negative, NaN, +infinity, -infinity) the queries for positive, negative, infinite, NaN and computable return exactly the documented truth values, setting a state stores it and drops all digits exactly when it is NaN or an infinity, and clearing gives positive zero.",
 ["inputs"],"for all states and all stored digits","No test queries a state.",
 [TY],[("isPositive/isNegative/isInfinite/isNan/isComputable, setDescriptor, clear",TY)],ST)
p("C21","Digit editing touches exactly the addressed digit",
 "push_front/pop_front, push_back/pop_back, push/pop at a position and resize insert or remove exactly the addressed digit(s) of the digit sequence, keep the order and value of all others and the state, and size() and the raw data view report exactly the stored digits.",
 ["inputs","histories"],"for all digit sequences, positions and digits in each shipped digit system","Only push_back is used by a test.",
 [TY],[("container forwarding members",TY)],ST)
p("C22","Copies are equal and independent, moves transfer everything",
 "Copy construction and copy assignment make the target equal to the source in state and digits, leave the source unchanged and work when source and target are the same object; move construction and move assignment give the target the state and digits the source had.",
 ["inputs","histories"],"for all numbers, finite or not","Nothing in the tests compares a copy with its source.",
 [TY],[("copy/move constructors and assignments",TY)],ST)
p("C23","Runtime assertions report by severity",
 "A runtime assertion whose condition holds does nothing; one that fails writes its message exactly once, to standard error for warnings and errors and to standard output for alerts, throws exactly for errors, and the library's exception types describe themselves without throwing.",
 ["inputs"],"for all conditions, severities and messages","No test triggers an assertion.",
 ["src/bn_except.cpp","include/bignum/bn_except.h"],[("bn_runtime_assert","src/bn_except.cpp"),("BNNaN::what, BNUnderflow::what","src/bn_except.cpp")])
p("C24","Digit arithmetic has no undefined operation",
 "In every shipped digit system, for all digit values and lengths, the library's integer arithmetic never divides by zero, overflows a signed intermediate, shifts by the operand width or more, or converts an out-of-range floating value to an integer.",
 ["inputs","configurations"],"for every arithmetic instruction reachable from the public operations, all digit values, each shipped digit system","The tests never use the three native digit types.",
 [I+"bn_addition_impl.h",I+"bn_subtraction_impl.h",I+"bn_multiplication_impl.h",I+"bn_division_impl.h",I+"fourier_impl.h"],
 [("width of base_double / casts","include/bignum/bn_limits.h")])
p("C25","Every operation terminates",
 "Every loop and recursion in the library makes progress towards its exit on well-formed numbers of every length, including numbers without digits, so each public operation returns or throws.",
 ["inputs","configurations"],"for every loop and recursive call reachable from the public operations, operands of every length","Zero operands are never used by a test, and a hang needs exactly those.",
 [I+"bn_compare_impl.h",I+"bn_addition_impl.h",I+"bn_subtraction_impl.h",I+"bn_division_impl.h",I+"fourier_impl.h",I+"bn_multiplication_impl.h",TY],
 [("loop counters",I+"bn_addition_impl.h"),("FFT base case",I+"fourier_impl.h"),("dividend decreases",I+"bn_division_impl.h")])
p("C26","The Fourier helpers compute the discrete Fourier transform",
 "Up to floating-point rounding, for every power-of-two length the forward helper computes the discrete Fourier transform of its input, the inverse helper undoes it, and the convolution table built from two digit sequences transforms back to their acyclic convolution.",
 ["inputs"],"for all inputs of every power-of-two length","No test calls the Fourier helpers directly; multiplication results are only printed.",
 [I+"fourier_impl.h"],[("fft_complex, ifft_complex, create_fft_table, convolute_fft",I+"fourier_impl.h")])
p("C27","Rounding of the floating-point transform stays below one half",
 "For every operand length for which multiplication uses the floating-point transform, the accumulated rounding error of each convolution sum stays below one half, so rounding to the nearest integer recovers it exactly.",
 ["inputs","configurations"],"for all digit values and all lengths that take the floating-point path, in each shipped digit system","A rounding failure needs long operands of large digits; the tests multiply short ones.",
 [I+"bn_multiplication_impl.h",I+"fourier_impl.h"],[("std::floor(x + 0.5)",I+"bn_multiplication_impl.h")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P: assert len(x['title'])<=80,x
print(len(P))
