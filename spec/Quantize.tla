------------------------------ MODULE Quantize ------------------------------
(* From the files' floating-point coordinates to integers.  Numbers here    *)
(* are exact: a magnitude is a little-endian byte sequence of any length.   *)
EXTENDS Bytes

\* Magnitudes
MLimb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
MMax(a, b) == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
RECURSIVE MAddFrom(_, _, _, _, _)
MAddFrom(a, b, i, carry, acc) ==
  IF i > MMax(a, b) THEN (IF carry = 0 THEN acc ELSE Append(acc, carry))
  ELSE LET v == MLimb(a, i) + MLimb(b, i) + carry IN MAddFrom(a, b, i + 1, v \div 256, Append(acc, v % 256))
MAdd(a, b) == MAddFrom(a, b, 1, 0, << >>)
RECURSIVE MSubFrom(_, _, _, _, _)
MSubFrom(a, b, i, borrow, acc) ==      \* a >= b
  IF i > MMax(a, b) THEN acc
  ELSE LET v == MLimb(a, i) - MLimb(b, i) - borrow
       IN  MSubFrom(a, b, i + 1, IF v < 0 THEN 1 ELSE 0, Append(acc, v % 256))
MSub(a, b) == MSubFrom(a, b, 1, 0, << >>)
RECURSIVE MCmpFrom(_, _, _)
MCmpFrom(a, b, i) == IF i = 0 THEN 0
                     ELSE IF MLimb(a, i) # MLimb(b, i) THEN (IF MLimb(a, i) < MLimb(b, i) THEN -1 ELSE 1)
                     ELSE MCmpFrom(a, b, i - 1)
MCmp(a, b) == MCmpFrom(a, b, MMax(a, b))
RECURSIVE MScaleFrom(_, _, _, _, _)
MScaleFrom(a, k, i, carry, acc) ==
  IF i > Len(a) THEN (IF carry = 0 THEN acc ELSE Append(acc, carry))
  ELSE LET v == a[i] * k + carry IN MScaleFrom(a, k, i + 1, v \div 256, Append(acc, v % 256))
MScale(a, k) == MScaleFrom(a, k, 1, 0, << >>)             \* k in 0..255
MBytes(a, n) == [i \in 1..n |-> 0] \o a                   \* a * 256^n
Pow2 == << 1, 2, 4, 8, 16, 32, 64, 128 >>
MShift(a, k) == MBytes(MScale(a, Pow2[(k % 8) + 1]), k \div 8)
MMul4(a, q) == MAdd(MAdd(MScale(a, q[1]), MBytes(MScale(a, q[2]), 1)),
                    MAdd(MBytes(MScale(a, q[3]), 2), MBytes(MScale(a, q[4]), 3)))   \* q: four bytes

\* Signed: <<negative?, magnitude>>
SNeg(x) == << ~x[1], x[2] >>
SAdd(x, y) == IF x[1] = y[1] THEN << x[1], MAdd(x[2], y[2]) >>
              ELSE IF MCmp(x[2], y[2]) >= 0 THEN << x[1], MSub(x[2], y[2]) >> ELSE << y[1], MSub(y[2], x[2]) >>
SSub(x, y) == SAdd(x, SNeg(y))
MIsZero(a) == \A i \in 1..Len(a) : a[i] = 0
SSgn(x) == IF MIsZero(x[2]) THEN 0 ELSE IF x[1] THEN -1 ELSE 1

\* Doubles, from their eight bytes: (-1)^neg * mag * 2^(exp - 1075)
FExp(f) == (f[8] % 128) * 16 + (f[7] \div 16)
FFinite(f) == FExp(f) < 2047
FPow(f) == IF FExp(f) = 0 THEN 1 ELSE FExp(f)
FMag(f) == SubSeq(f, 1, 6) \o << (f[7] % 16) + (IF FExp(f) = 0 THEN 0 ELSE 16) >>
FZero(f) == FExp(f) = 0 /\ MIsZero(FMag(f))
\* f over 2^(p - 1075); p is at most every power involved
FAt(f, p) == IF FZero(f) THEN << FALSE, << >> >> ELSE << f[8] >= 128, MShift(FMag(f), FPow(f) - p) >>
Min2(a, b) == IF a < b THEN a ELSE b
FLow(f, g) == IF FZero(f) THEN g ELSE Min2(FPow(f), g)

\* Order of two doubles: -1, 0 or 1.
FCmp(f, g) ==
  IF FZero(f) /\ FZero(g) THEN 0
  ELSE LET nf == f[8] >= 128  ng == g[8] >= 128 IN
       IF nf # ng THEN (IF nf THEN -1 ELSE 1)
       ELSE LET m == MCmp(f, g) IN IF nf THEN -m ELSE m
--------------------------------------------------------------------------
(* One axis: from maps to 0, to maps to 2^32 - 1.  q: four bytes, the image *)
(* of x.  Rounding down, give or take 2^-16.                                *)
MaxQ == << 255, 255, 255, 255 >>
ZeroQ == << 0, 0, 0, 0 >>
AxisOK(x, from, to, q) ==
  LET p == FLow(x, FLow(from, FLow(to, 2046)))
      flip == FCmp(to, from) < 0
      d0 == SSub(FAt(x, p), FAt(from, p))
      w0 == SSub(FAt(to, p), FAt(from, p))
      d == IF flip THEN SNeg(d0) ELSE d0
      w == w0[2]
  IN  IF SSgn(d) <= 0 THEN q = ZeroQ
      ELSE IF MCmp(d[2], w) >= 0 THEN q = MaxQ
      ELSE LET v == MBytes(MSub(MBytes(d[2], 4), d[2]), 2)       \* d * (2^32 - 1) * 2^16
               r == MBytes(MMul4(w, q), 2)                       \* q * w * 2^16
           IN  /\ MCmp(r, MAdd(v, w)) <= 0
               /\ MCmp(v, MAdd(MAdd(r, MBytes(w, 2)), w)) < 0

BoxOK(box) ==
  /\ \A i \in 1..4 : FExp(box[i]) < 2046          \* its width is finite, too
  /\ FCmp(box[1], box[3]) < 0 /\ FCmp(box[2], box[4]) < 0
PX(pt) == SubSeq(pt, 1, 8)
PY(pt) == SubSeq(pt, 9, 16)
PtFinite(pt) == FFinite(PX(pt)) /\ FFinite(PY(pt))
PtOK(box, pt, q) == AxisOK(PX(pt), box[1], box[3], q[1]) /\ AxisOK(PY(pt), box[4], box[2], q[2])

\* The order of coordinates is kept.  ms: pairs <<point, image>>.
OrderOK(ms) ==
  LET xs == SortSeq([i \in 1..Len(ms) |-> << PX(ms[i][1]), ms[i][2][1] >>], LAMBDA a, b : FCmp(a[1], b[1]) < 0)
      ys == SortSeq([i \in 1..Len(ms) |-> << PY(ms[i][1]), ms[i][2][2] >>], LAMBDA a, b : FCmp(a[1], b[1]) > 0)
      kept(s) == \A i \in 1..(Len(s) - 1) : IF FCmp(s[i][1], s[i + 1][1]) = 0 THEN s[i][2] = s[i + 1][2]
                                             ELSE MCmp(s[i][2], s[i + 1][2]) <= 0
  IN  kept(xs) /\ kept(ys)

\* A four-byte number as a Wide coordinate.
CoordOf(q) ==
  LET c == q[1] + 256 * q[2] + 5536 * q[3] + 7216 * q[4]
      b == 6 * q[3] + 1677 * q[4] + (c \div 10000)
  IN  << b \div 10000, b % 10000, c % 10000 >>
=============================================================================
