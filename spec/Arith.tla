------------------------------- MODULE Arith -------------------------------
(* Coordinates and signed numbers, as the rest of the specification uses    *)
(* them.  Here both are native integers.  TLC's integers have 32 bits, so   *)
(* for u32 coordinates the model configurations replace every operator of   *)
(* this module by its namesake in Wide (CMul <- W_CMul and so on); the       *)
(* specification proper never mentions a representation.                    *)
(*                                                                          *)
(*   coordinate : something a Point has two of (unsigned)                    *)
(*   number     : a signed integer computed from coordinates                *)
EXTENDS Integers, TLC

CLt(a, b) == a < b                       \* order on coordinates
CNum(a)   == a                           \* coordinate -> number
CDiff(a, b) == a - b                     \* coordinate, coordinate -> number
CMove(a, n) == a + n                     \* coordinate shifted by a number
CStr(a)   == ToString(a)                 \* in decimal

\* a*d - b*c, and the doubled signed area of triangle (a,b) (c,d) (e,f)
CDet(a, b, c, d) == a * d - b * c
CTri(a, b, c, d, e, f) == (c - a) * (f - b) - (e - a) * (d - b)

NZero     == 0
NOfInt(i) == i                           \* small native integer -> number
NAdd(x, y) == x + y
NSub(x, y) == x - y
NMul(x, y) == x * y
NLt(x, y)  == x < y
NSgn(x)    == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
NAbs(x)    == IF x < 0 THEN -x ELSE x
NNeg(x)    == -x
\* Quotient rounded towards zero.
NQuo(x, y) == LET q == NAbs(x) \div NAbs(y)
              IN  IF NSgn(x) * NSgn(y) < 0 THEN -q ELSE q
=============================================================================
