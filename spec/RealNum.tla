------------------------------- MODULE RealNum -------------------------------
(***************************************************************************)
(* Real arithmetic and IEEE single-precision bit patterns.                 *)
(*                                                                         *)
(* The code under test stores logits and probabilities as f32.  The        *)
(* specification represents an f32 by its 32-bit pattern (an integer), so  *)
(* that "unchanged" means bit-for-bit unchanged, and computes derived      *)
(* quantities over the reals.  TLC has no reals; the operators below are   *)
(* evaluated by java/RealNum.java in double precision.  The right-hand     *)
(* sides here only give the arity and the intended meaning.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* the real number denoted by f32 bit pattern b (or +-infinity, NaN)
R32(b) == CHOOSE r : r = <<"real of f32", b>>
\* the integer n / the rational n/m as a real
RInt(n) == CHOOSE r : r = <<"real of int", n>>
RQ(n, m) == CHOOSE r : r = <<"quotient", n, m>>
\* bit pattern of the f32 nearest to real r
ToF32(r) == CHOOSE b \in Int : <<"nearest f32", r, b>> # <<>>
\* largest integer <= r, saturating at 2^31-1; 0 for NaN
RFloor(r) == CHOOSE n \in Int : <<"floor", r, n>> # <<>>

RAdd(x, y) == CHOOSE r : r = <<"+", x, y>>
RSub(x, y) == CHOOSE r : r = <<"-", x, y>>
RMul(x, y) == CHOOSE r : r = <<"*", x, y>>
RDiv(x, y) == CHOOSE r : r = <<"/", x, y>>
RNeg(x) == CHOOSE r : r = <<"neg", x>>
RAbs(x) == CHOOSE r : r = <<"abs", x>>
RMax(x, y) == CHOOSE r : r = <<"max", x, y>>
RMin(x, y) == CHOOSE r : r = <<"min", x, y>>
RExp(x) == CHOOSE r : r = <<"exp", x>>
RLn(x) == CHOOSE r : r = <<"ln", x>>
RLog2(x) == CHOOSE r : r = <<"log2", x>>
RPow(x, y) == CHOOSE r : r = <<"pow", x, y>>

\* order on the reals (false if either side is NaN)
RLt(x, y) == CHOOSE t \in BOOLEAN : <<"lt", x, y, t>> # <<>>
RLe(x, y) == CHOOSE t \in BOOLEAN : <<"le", x, y, t>> # <<>>
REq(x, y) == CHOOSE t \in BOOLEAN : <<"eq", x, y, t>> # <<>>
RIsNaN(x) == CHOOSE t \in BOOLEAN : <<"nan", x, t>> # <<>>
RIsFinite(x) == CHOOSE t \in BOOLEAN : <<"fin", x, t>> # <<>>
\* x * 2^k is an integer
RIsDyadic(x, k) == CHOOSE t \in BOOLEAN : <<"dyadic", x, k, t>> # <<>>
RIsPow2(x) == CHOOSE t \in BOOLEAN : <<"pow2", x, t>> # <<>>

\* the same order on f32 bit patterns
FLt(a, b) == CHOOSE t \in BOOLEAN : <<"flt", a, b, t>> # <<>>
FLe(a, b) == CHOOSE t \in BOOLEAN : <<"fle", a, b, t>> # <<>>
FEq(a, b) == CHOOSE t \in BOOLEAN : <<"feq", a, b, t>> # <<>>
FIsNaN(a) == CHOOSE t \in BOOLEAN : <<"fnan", a, t>> # <<>>
FIsFinite(a) == CHOOSE t \in BOOLEAN : <<"ffin", a, t>> # <<>>

\* a sequence of f32 bit patterns, largest value first
FSortDesc(q) == CHOOSE r \in [1..Len(q) -> Int] :
                   /\ \A i \in 1..(Len(q) - 1) : ~FLt(r[i], r[i + 1])
                   /\ \A v \in {q[i] : i \in 1..Len(q)} :
                        Cardinality({i \in 1..Len(q) : q[i] = v})
                          = Cardinality({i \in 1..Len(q) : r[i] = v})

\* the double nearest to a decimal number given as characters
RDec(c) == CHOOSE r : r = <<"decimal", c>>

FShow(a) == CHOOSE s : s = <<"show", a>>
RShow(x) == CHOOSE s : s = <<"show", x>>

\* frequently used constants
R0 == RInt(0)
R1 == RInt(1)
FZero == 0
FNegInf == -8388608
FPosInf == 2139095040
FNegZero == -2147483647 - 1
=============================================================================
