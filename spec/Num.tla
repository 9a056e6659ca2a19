-------------------------------- MODULE Num --------------------------------
(* Real numbers for the specification.  TLC evaluates these operators with  *)
(* the Java class Num (40 significant decimal digits); the definitions here *)
(* are the mathematical meaning, over the standard module Reals.            *)
EXTENDS Integers, Sequences, TLC

(* Does the string s denote a finite number ("nan", "inf" do not)? *)
IsReal(s) == CHOOSE b \in BOOLEAN : TRUE
(* The number denoted by a decimal numeral, or by an integer. *)
R(s)      == CHOOSE x : TRUE

RAdd(x, y) == x + y
RSub(x, y) == x - y
RMul(x, y) == x * y
RDiv(x, y) == CHOOSE q : RMul(q, y) = x
RLe(x, y)  == x <= y
RLt(x, y)  == x < y
RExp(x)    == CHOOSE y : TRUE   \* e^x
RLn(x)     == CHOOSE y : RExp(y) = x
RSqrt(x)   == CHOOSE y : RMul(y, y) = x
RPhi(x)    == CHOOSE p : TRUE   \* standard normal distribution function
RPhiInv(p) == CHOOSE x : RPhi(x) = p   \* its inverse, for 0 < p < 1
RFloor(x)  == CHOOSE n \in Int : RLe(n, x) /\ RLt(x, n + 1)
-----------------------------------------------------------------------------
x \oplus y  == RAdd(x, y)
x \ominus y == RSub(x, y)
x \otimes y == RMul(x, y)
x \oslash y == RDiv(x, y)
x \prec y   == RLt(x, y)
x \preceq y == RLe(x, y)

Zero == R("0")
One  == R("1")
Two  == R("2")
Neg(x) == RSub(Zero, x)
Abs(x) == IF RLt(x, Zero) THEN Neg(x) ELSE x
RMax(x, y) == IF RLt(x, y) THEN y ELSE x
RMin(x, y) == IF RLt(x, y) THEN x ELSE y
Pow(x, y)  == RExp(RMul(y, RLn(x)))            \* for x > 0
Sq(x) == RMul(x, x)

(* |x - y| <= atol + rtol * max(|x|, |y|) *)
Near(x, y, rtol, atol) ==
    RLe(Abs(RSub(x, y)), RAdd(atol, RMul(rtol, RMax(Abs(x), Abs(y)))))

(* Sum of a sequence of numbers; inner product *)
RECURSIVE SumTo(_, _)
SumTo(s, n) == IF n = 0 THEN Zero ELSE RAdd(SumTo(s, n - 1), s[n])
RSum(s) == SumTo(s, Len(s))
Dot(a, b) == SumTo([k \in 1..Len(a) |-> RMul(a[k], b[k])], Len(a))
(* Sum / product of F(1), ..., F(n) *)
SumFn(F(_), n) == RSum([k \in 1..n |-> F(k)])
RECURSIVE ProdTo(_, _)
ProdTo(s, n) == IF n = 0 THEN One ELSE RMul(ProdTo(s, n - 1), s[n])
RProd(s) == ProdTo(s, Len(s))

(* Force tabulation: TLC otherwise re-evaluates a function at every use. *)
Tab(f) == TLCEval(f)
(* Sequence of numerals -> sequence of numbers *)
Nums(s) == Tab([k \in 1..Len(s) |-> R(s[k])])
AllReal(s) == \A k \in 1..Len(s) : IsReal(s[k])
NearSeq(a, b, rtol, atol) ==
    /\ Len(a) = Len(b)
    /\ \A k \in 1..Len(a) : Near(a[k], b[k], rtol, atol)
=============================================================================
