------------------------------- MODULE Bytes --------------------------------
(* Byte sequences, numbers stored in them, streams, and text encodings.     *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

\* Offsets count from 0.  Numbers from Huge up are not told apart: no file
\* here is that long.
Huge == 536870912
Slice(b, from, n) == SubSeq(b, from + 1, from + n)
U16(b, i) == b[i + 1] + 256 * b[i + 2]
U32LE(b, i) == IF b[i + 4] >= 32 THEN Huge ELSE b[i + 1] + 256 * (b[i + 2] + 256 * (b[i + 3] + 256 * b[i + 4]))
U32BE(b, i) == IF b[i + 1] >= 32 THEN Huge ELSE b[i + 4] + 256 * (b[i + 3] + 256 * (b[i + 2] + 256 * b[i + 1]))

(* A stream: bytes, and after how many of them it fails (-1: never).  How   *)
(* it splits its reads is not part of its state: nothing may depend on it.  *)
Avail(s) == IF s.fail >= 0 /\ s.fail < Len(s.b) THEN s.fail ELSE Len(s.b)
\* No file at all
NoStream == [b |-> << >>, fail |-> -2]
\* What one learns on reading past that: there is no such file, the stream's own
\* error, or that there is nothing more.
IOKind(s) == CASE s.fail = -2 -> "missing" [] s.fail >= 0 /\ s.fail <= Len(s.b) -> "failed" [] OTHER -> "end"
(* Errors: << which file, "io", "parse" or "join", kind of I/O error >>.     *)
(* Where there are several reasons, any of them may be given.               *)
IOError(f, s) == { << f, "io", IOKind(s) >> }
ParseError(f) == { << f, "parse", "" >> }
ErrOf(why) == [k |-> "err", why |-> why]

(* Damage: the first d.cut bytes (-1: all), with some bytes replaced.       *)
Damaged(b, d) ==
  LET kept == IF d.cut >= 0 THEN SubSeq(b, 1, d.cut) ELSE b
  IN  FoldLeft(LAMBDA acc, p : IF p[1] < Len(acc) THEN [acc EXCEPT ![p[1] + 1] = p[2]] ELSE acc, kept, d.patch)

--------------------------------------------------------------------------
(* Text is a sequence of code points.  Decoding gives <<text>> or << >>.     *)

DecodeAscii(b) == IF \A i \in 1..Len(b) : b[i] < 128 THEN << b >> ELSE << >>

\* Windows-1252, 0x80 to 0x9f (the five unassigned bytes are C1 controls)
High1252 == << 8364, 129, 8218, 402, 8222, 8230, 8224, 8225, 710, 8240, 352, 8249, 338, 141, 381, 143,
               144, 8216, 8217, 8220, 8221, 8226, 8211, 8212, 732, 8482, 353, 8250, 339, 157, 382, 376 >>
Decode1252(b) == << [i \in 1..Len(b) |-> IF b[i] \in 128..159 THEN High1252[b[i] - 127] ELSE b[i]] >>

Tail80(b, i) == i <= Len(b) /\ b[i] \in 128..191
RECURSIVE Utf8From(_, _, _)
Utf8From(b, i, acc) ==
  IF i > Len(b) THEN << acc >> ELSE
  LET x == b[i] IN
  IF x < 128 THEN Utf8From(b, i + 1, Append(acc, x))
  ELSE IF x \in 194..223 /\ Tail80(b, i + 1)
       THEN Utf8From(b, i + 2, Append(acc, (x - 192) * 64 + b[i + 1] - 128))
  ELSE IF x \in 224..239 /\ Tail80(b, i + 1) /\ Tail80(b, i + 2)
       THEN LET v == ((x - 224) * 64 + b[i + 1] - 128) * 64 + b[i + 2] - 128
            IN  IF v < 2048 \/ v \in 55296..57343 THEN << >> ELSE Utf8From(b, i + 3, Append(acc, v))
  ELSE IF x \in 240..244 /\ Tail80(b, i + 1) /\ Tail80(b, i + 2) /\ Tail80(b, i + 3)
       THEN LET v == (((x - 240) * 64 + b[i + 1] - 128) * 64 + b[i + 2] - 128) * 64 + b[i + 3] - 128
            IN  IF v < 65536 \/ v > 1114111 THEN << >> ELSE Utf8From(b, i + 4, Append(acc, v))
  ELSE << >>

Decode(enc, b) == CASE enc = "ascii" -> DecodeAscii(b)
                    [] enc = "utf8"  -> Utf8From(b, 1, << >>)
                    [] enc = "1252"  -> Decode1252(b)

\* Decimal digits of a little-endian number, by repeated division.
RECURSIVE DivAll(_, _, _, _)
DivAll(b, d, i, acc) ==   \* <<quotient, remainder>> of b by d, from the top byte
  IF i = 0 THEN acc
  ELSE LET v == acc[2] * 256 + b[i] IN DivAll(b, d, i - 1, << << v \div d >> \o acc[1], v % d >>)
RECURSIVE Digits(_, _)
Digits(b, acc) ==
  IF \A i \in 1..Len(b) : b[i] = 0 THEN (IF acc = << >> THEN << 48 >> ELSE acc)
  ELSE LET q == DivAll(b, 10, Len(b), << << >>, 0 >>) IN Digits(q[1], << 48 + q[2] >> \o acc)
=============================================================================
