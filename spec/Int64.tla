------------------------------- MODULE Int64 -------------------------------
(***************************************************************************)
(* 64-bit signed integers for TLC, whose own integers are 32-bit.          *)
(*                                                                         *)
(* A value is canonical: <<v>> when -2^30 < v < 2^30, otherwise its eight  *)
(* two's complement bytes, least significant first.  Overflow is undefined *)
(* in C, so the operations that can overflow return Undef then.            *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE Bitwise
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE TLC              \* TLCEval: TLC would otherwise re-evaluate lazily

Undef == <<>>
LOCAL Lim == 1073741824                                            \* 2^30

LOCAL Pad(v) ==                              \* bytes of a small TLC integer
  LET u == IF v >= 0 THEN v ELSE -(v + 1)    \* v = -u-1 for negatives
      b == <<u % 256, (u \div 256) % 256, (u \div 65536) % 256, u \div 16777216,
             0, 0, 0, 0>>
  IN IF v >= 0 THEN b ELSE [i \in 1..8 |-> 255 - b[i]]

Small(v) == <<v>>
IsSmall(x) == Len(x) = 1
ToLimbs(x) == IF IsSmall(x) THEN Pad(x[1]) ELSE x
LOCAL NegL(l) == l[8] >= 128

(* bytes -> canonical *)
Norm(l0) ==
  LET l == TLCEval(l0) IN
  IF /\ l[5] = l[8] /\ l[6] = l[8] /\ l[7] = l[8]
     /\ \/ l[8] = 0   /\ l[4] < 64
        \/ l[8] = 255 /\ l[4] >= 192 /\ ~(l[4] = 192 /\ l[3] = 0 /\ l[2] = 0 /\ l[1] = 0)
  THEN IF l[8] = 0
       THEN <<l[1] + 256 * l[2] + 65536 * l[3] + 16777216 * l[4]>>
       ELSE << -((255 - l[1]) + 256 * (255 - l[2]) + 65536 * (255 - l[3])
                  + 16777216 * (255 - l[4])) - 1 >>
  ELSE l

LOCAL FromInt(v) == IF v > -Lim /\ v < Lim THEN <<v>> ELSE Pad(v)

IsNeg(x) == IF IsSmall(x) THEN x[1] < 0 ELSE NegL(x)
IsZero(x) == x = <<0>>
Zero == <<0>>
One == <<1>>
Bool(b) == IF b THEN One ELSE Zero

BitNot(x) == IF IsSmall(x) THEN FromInt(-x[1] - 1)
          ELSE Norm([i \in 1..8 |-> 255 - x[i]])

(* wrap-around sum of two byte vectors plus a carry in, as bytes *)
LOCAL AddL(a, b, c0) == TLCEval(
  LET s1 == a[1] + b[1] + c0            s2 == a[2] + b[2] + s1 \div 256
      s3 == a[3] + b[3] + s2 \div 256   s4 == a[4] + b[4] + s3 \div 256
      s5 == a[5] + b[5] + s4 \div 256   s6 == a[6] + b[6] + s5 \div 256
      s7 == a[7] + b[7] + s6 \div 256   s8 == a[8] + b[8] + s7 \div 256
  IN <<s1 % 256, s2 % 256, s3 % 256, s4 % 256, s5 % 256, s6 % 256, s7 % 256, s8 % 256>>)
LOCAL InvL(a) == TLCEval([i \in 1..8 |-> 255 - a[i]])
LOCAL ZeroL == <<0, 0, 0, 0, 0, 0, 0, 0>>
LOCAL NegateL(a) == AddL(InvL(a), ZeroL, 1)

Add(x, y) ==
  IF x = Undef \/ y = Undef THEN Undef
  ELSE IF IsSmall(x) /\ IsSmall(y) THEN FromInt(x[1] + y[1])
  ELSE LET a == ToLimbs(x) b == ToLimbs(y) s == AddL(a, b, 0)
       IN IF NegL(a) = NegL(b) /\ NegL(s) # NegL(a) THEN Undef ELSE Norm(s)
Sub(x, y) ==
  IF IsSmall(x) /\ IsSmall(y) THEN FromInt(x[1] - y[1])
  ELSE LET a == ToLimbs(x) b == ToLimbs(y) s == AddL(a, InvL(b), 1)
       IN IF NegL(a) # NegL(b) /\ NegL(s) # NegL(a) THEN Undef ELSE Norm(s)
Neg(x) == Sub(Zero, x)

(* comparison *)
RECURSIVE LtMag(_, _, _)
LtMag(a, b, i) == IF i = 0 THEN FALSE
                        ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LtMag(a, b, i - 1)
Lt(x, y) ==
  IF IsSmall(x) /\ IsSmall(y) THEN x[1] < y[1]
  ELSE LET a == ToLimbs(x) b == ToLimbs(y)
       IN IF NegL(a) # NegL(b) THEN NegL(a) ELSE LtMag(a, b, 8)
Le(x, y) == x = y \/ Lt(x, y)

(* magnitudes are byte vectors read as unsigned *)
LOCAL Mag(x) == LET l == ToLimbs(x) IN IF NegL(l) THEN NegateL(l) ELSE l
LOCAL Signed(m, neg) ==                      \* m < 2^63, or = 2^63 and negative
  IF neg THEN (IF m[8] >= 128 /\ m # <<0, 0, 0, 0, 0, 0, 0, 128>> THEN Undef ELSE Norm(NegateL(m)))
         ELSE (IF m[8] >= 128 THEN Undef ELSE Norm(m))

RECURSIVE SumTo(_, _, _, _)
SumTo(a, b, k, i) ==                   \* sum of a[i]*b[k+1-i], i..8
  IF i > 8 THEN 0
  ELSE (IF k + 1 - i >= 1 /\ k + 1 - i <= 8 THEN a[i] * b[k + 1 - i] ELSE 0)
       + SumTo(a, b, k, i + 1)
LOCAL MulCarry(a, b) ==                      \* 16 result bytes
  LET Step(ca, k) == LET s == TLCEval(SumTo(a, b, k, 1) + ca[1])
                     IN <<s \div 256, Append(ca[2], s % 256)>>
  IN FoldLeft(Step, <<0, <<>>>>, [k \in 1..16 |-> k])[2]

Mul(x, y) ==
  IF IsSmall(x) /\ IsSmall(y) /\ x[1] > -32768 /\ x[1] < 32768 /\ y[1] > -32768 /\ y[1] < 32768
  THEN FromInt(x[1] * y[1])
  ELSE LET p == MulCarry(Mag(x), Mag(y))
           lo == SubSeq(p, 1, 8)
       IN IF \E i \in 9..16 : p[i] # 0 THEN Undef
          ELSE Signed(lo, IsNeg(x) # IsNeg(y))

(* unsigned long division, one bit at a time *)
LOCAL Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128>>
LOCAL BitAt(a, k) == (a[k \div 8 + 1] \div Pow2[(k % 8) + 1]) % 2
LOCAL Dbl(a, c) == AddL(a, a, c)
LOCAL Bits == [i \in 1..64 |-> 64 - i]        \* 63, 62, .., 0
LOCAL DivStep(a, b, qr, k) ==                \* qr[2] < b <= 2^63, so 2r+1 fits
  LET r1 == Dbl(qr[2], BitAt(a, k))
  IN IF LtMag(r1, b, 8) THEN <<Dbl(qr[1], 0), r1>>
     ELSE <<Dbl(qr[1], 1), AddL(r1, InvL(b), 1)>>
LOCAL DivMod(x, y) ==
  LET a == Mag(x) b == Mag(y) Step(qr, k) == DivStep(a, b, qr, k)
  IN FoldLeft(Step, <<ZeroL, ZeroL>>, Bits)

LOCAL Abs(v) == IF v < 0 THEN -v ELSE v
(* truncating division; the caller has excluded y = 0 *)
Div(x, y) ==
  IF IsSmall(x) /\ IsSmall(y)
  THEN LET q == Abs(x[1]) \div Abs(y[1]) IN <<IF (x[1] < 0) # (y[1] < 0) THEN -q ELSE q>>
  ELSE Signed(DivMod(x, y)[1], IsNeg(x) # IsNeg(y))
Mod(x, y) ==
  IF IsSmall(x) /\ IsSmall(y)
  THEN LET r == Abs(x[1]) % Abs(y[1]) IN <<IF x[1] < 0 THEN -r ELSE r>>
  ELSE IF Div(x, y) = Undef THEN Undef         \* INT64_MIN % -1 is undefined too
  ELSE Signed(DivMod(x, y)[2], IsNeg(x))

LOCAL Bit2(x, y, op(_, _)) ==
  LET a == ToLimbs(x) b == ToLimbs(y) IN Norm([i \in 1..8 |-> op(a[i], b[i])])
LOCAL OrB(a, b) == a + b - (a & b)
LOCAL XorB(a, b) == a + b - 2 * (a & b)
LOCAL AndB(a, b) == a & b
BitAnd(x, y) == IF IsSmall(x) /\ IsSmall(y) /\ x[1] >= 0 /\ y[1] >= 0 THEN <<x[1] & y[1]>>
                ELSE Bit2(x, y, AndB)
BitOr(x, y)  == Bit2(x, y, OrB)
BitXor(x, y) == Bit2(x, y, XorB)

LOCAL Half(x) ==                             \* floor(x / 2)
  IF IsSmall(x) THEN <<x[1] \div 2>>         \* TLA+ \div is floor division
  ELSE LET l == x
       IN Norm([i \in 1..8 |-> l[i] \div 2 +
                 (IF i = 8 THEN (IF NegL(l) THEN 128 ELSE 0) ELSE 128 * (l[i + 1] % 2))])
LOCAL Shl(x, k) == LET D(v, i) == IF v = Undef THEN v ELSE Add(v, v)
                   IN FoldLeft(D, x, [i \in 1..k |-> i])
LOCAL Shr(x, k) == LET H(v, i) == Half(v) IN FoldLeft(H, x, [i \in 1..k |-> i])
LOCAL ShiftOK(y) == IsSmall(y) /\ y[1] >= 0 /\ y[1] < 64
(* C: shifting a negative value left, or by a negative or too large count, is undefined *)
ShiftL(x, y) == IF ~ShiftOK(y) \/ IsNeg(x) THEN Undef ELSE Shl(x, y[1])
ShiftR(x, y) == IF ~ShiftOK(y) THEN Undef ELSE Shr(x, y[1])

(* decimal digits (bytes) to a value, Undef when it exceeds 2^63-1 *)
LOCAL PushDigit(acc, d) ==
  IF acc = Undef THEN Undef
  ELSE LET m == Mul(acc, <<10>>) IN IF m = Undef THEN Undef ELSE Add(m, <<d - 48>>)
Parse(ds) == FoldLeft(PushDigit, Zero, ds)
=============================================================================
