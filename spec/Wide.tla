-------------------------------- MODULE Wide --------------------------------
(* Arbitrary-looking precision for TLC: the operators of Arith over limbs.  *)
(*                                                                          *)
(*   coordinate: <<a, b, c>>, meaning a*10^8 + b*10^4 + c  (a <= 42)         *)
(*   number:     little-endian limbs <<l1, .., l7>> in base 10^4, where      *)
(*               l1..l6 are in 0..9999 and l7 carries the sign, so every    *)
(*               number has one representation and "=" is equality.         *)
EXTENDS Integers, Sequences, TLC

W_B == 10000
W_N == 7

\* Carries.  TLC's \div and % round towards minus infinity, as we need.
W_Carry(a1, a2, a3, a4, a5, a6, a7) ==
  LET v2 == a2 + (a1 \div W_B)
      v3 == a3 + (v2 \div W_B)
      v4 == a4 + (v3 \div W_B)
      v5 == a5 + (v4 \div W_B)
      v6 == a6 + (v5 \div W_B)
  IN  << a1 % W_B, v2 % W_B, v3 % W_B, v4 % W_B, v5 % W_B, v6 % W_B, a7 + (v6 \div W_B) >>
W_Norm(s) == W_Carry(s[1], s[2], s[3], s[4], s[5], s[6], s[7])

W_Zero == << 0, 0, 0, 0, 0, 0, 0 >>
W_CNum(a) == << a[3], a[2], a[1], 0, 0, 0, 0 >>
W_CLt(a, b) == \/ a[1] < b[1]
               \/ a[1] = b[1] /\ a[2] < b[2]
               \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]
W_NOfInt(i) == W_Norm(<< i, 0, 0, 0, 0, 0, 0 >>)
W_Add(x, y) == W_Carry(x[1] + y[1], x[2] + y[2], x[3] + y[3], x[4] + y[4], x[5] + y[5], x[6] + y[6], x[7] + y[7])
W_Sub(x, y) == W_Carry(x[1] - y[1], x[2] - y[2], x[3] - y[3], x[4] - y[4], x[5] - y[5], x[6] - y[6], x[7] - y[7])
W_Neg(x)    == W_Carry(-x[1], -x[2], -x[3], -x[4], -x[5], -x[6], -x[7])
W_Sgn(x)    == IF x[W_N] < 0 THEN -1 ELSE IF x = W_Zero THEN 0 ELSE 1
W_Abs(x)    == IF x[W_N] < 0 THEN W_Neg(x) ELSE x
W_Lt(x, y)  == W_Sgn(W_Sub(x, y)) < 0
W_CDiff(a, b) == W_Norm(<< a[3] - b[3], a[2] - b[2], a[1] - b[1], 0, 0, 0, 0 >>)
\* a, b, c, d: limbs from the top, of either sign.  Columns stay below 10^9.
W_Col5(a, b, c, d) ==
  W_Carry(a[3]*d[3] - b[3]*c[3],
          a[2]*d[3] + a[3]*d[2] - b[2]*c[3] - b[3]*c[2],
          a[1]*d[3] + a[2]*d[2] + a[3]*d[1] - b[1]*c[3] - b[2]*c[2] - b[3]*c[1],
          a[1]*d[2] + a[2]*d[1] - b[1]*c[2] - b[2]*c[1],
          a[1]*d[1] - b[1]*c[1], 0, 0)
W_CDet(a, b, c, d) == W_Col5(a, b, c, d)
W_Del(a, b) == << a[1] - b[1], a[2] - b[2], a[3] - b[3] >>
W_CTri(a, b, c, d, e, f) == W_Col5(W_Del(c, a), W_Del(d, b), W_Del(e, a), W_Del(f, b))
W_CMove(a, n) == LET r == W_Add(W_CNum(a), n) IN << r[3], r[2], r[1] >>

W_Pad(i) == LET s == ToString(i) IN IF i < 10 THEN "000" \o s ELSE IF i < 100 THEN "00" \o s ELSE IF i < 1000 THEN "0" \o s ELSE s
W_CStr(a) == IF a[1] # 0 THEN ToString(a[1]) \o W_Pad(a[2]) \o W_Pad(a[3])
             ELSE IF a[2] # 0 THEN ToString(a[2]) \o W_Pad(a[3]) ELSE ToString(a[3])

\* Magnitudes: schoolbook product, truncated to W_N limbs.
W_Col(x, y, k) ==
  LET t(i) == IF i <= k THEN x[i] * y[k + 1 - i] ELSE 0
  IN  t(1) + t(2) + t(3) + t(4) + t(5) + t(6) + t(7)
W_MulMag(x, y) == W_Norm(<< W_Col(x, y, 1), W_Col(x, y, 2), W_Col(x, y, 3), W_Col(x, y, 4),
                            W_Col(x, y, 5), W_Col(x, y, 6), W_Col(x, y, 7) >>)
W_Mul(x, y) == LET m == W_MulMag(W_Abs(x), W_Abs(y))
               IN  IF W_Sgn(x) * W_Sgn(y) < 0 THEN W_Neg(m) ELSE m

\* Quotient of magnitudes (below 10^12), by limb from the top; each limb by bisection.
W_Put(acc, k, d) == [i \in 1..W_N |-> IF i = k THEN d ELSE acc[i]]
RECURSIVE W_Digit(_, _, _, _, _, _)
W_Digit(n, d, acc, k, lo, hi) ==   \* largest v in lo..hi with (acc + v*B^(k-1))*d <= n
  IF lo = hi THEN lo
  ELSE LET mid == (lo + hi + 1) \div 2
       IN  IF ~W_Lt(n, W_MulMag(W_Put(acc, k, mid), d))
           THEN W_Digit(n, d, acc, k, mid, hi)
           ELSE W_Digit(n, d, acc, k, lo, mid - 1)
W_QuoMag(n, d) ==
  LET a3 == W_Put(W_Zero, 3, W_Digit(n, d, W_Zero, 3, 0, W_B - 1))
      a2 == W_Put(a3, 2, W_Digit(n, d, a3, 2, 0, W_B - 1))
  IN  W_Put(a2, 1, W_Digit(n, d, a2, 1, 0, W_B - 1))
W_Quo(x, y) == LET q == W_QuoMag(W_Abs(x), W_Abs(y))
               IN  IF W_Sgn(x) * W_Sgn(y) < 0 THEN W_Neg(q) ELSE q
=============================================================================
