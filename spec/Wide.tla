-------------------------------- MODULE Wide --------------------------------
(***************************************************************************)
(* Unbounded natural numbers for TLC, whose integers have 32 bits.          *)
(*                                                                         *)
(* A number is the sequence of its base-10000 digits, most significant      *)
(* first, without leading zeros; zero is <<0>>.  The representation is      *)
(* canonical, so = is numerical equality.  Everything on a GPT disk that    *)
(* can exceed 31 bits (block addresses, byte sizes, entry counts) uses it.  *)
(***************************************************************************)
EXTENDS Naturals, Sequences

B == 10000
W0 == <<0>>
W1 == <<1>>
W2 == <<2>>
W3 == <<3>>

\* conversion from and to a TLC integer (ToI is for numbers below 10^8)
WI(n) == IF n < B THEN <<n>>
         ELSE IF n < B * B THEN <<n \div B, n % B>>
         ELSE <<n \div (B * B), (n \div B) % B, n % B>>
Short(a) == Len(a) <= 2
ToI(a) == IF Len(a) = 1 THEN a[1] ELSE a[1] * B + a[2]

RECURSIVE LexLt(_, _, _)
LexLt(a, b, i) == IF i > Len(a) THEN FALSE
                  ELSE IF a[i] = b[i] THEN LexLt(a, b, i + 1)
                  ELSE a[i] < b[i]

WLt(a, b) == IF Len(a) = Len(b)
             THEN IF Len(a) = 1 THEN a[1] < b[1] ELSE LexLt(a, b, 1)
             ELSE Len(a) < Len(b)
WLe(a, b) == ~WLt(b, a)
WMin(a, b) == IF WLt(b, a) THEN b ELSE a
WMax(a, b) == IF WLt(a, b) THEN b ELSE a

\* digits counted from the least significant one, 0 beyond the number
Dig(a, i) == IF i > Len(a) THEN 0 ELSE a[Len(a) + 1 - i]

RECURSIVE Strip(_)
Strip(a) == IF Len(a) > 1 /\ a[1] = 0 THEN Strip(Tail(a)) ELSE a

RECURSIVE AddFrom(_, _, _, _, _)
AddFrom(a, b, i, carry, acc) ==
  IF i > Len(a) /\ i > Len(b)
  THEN IF carry = 0 THEN acc ELSE <<carry>> \o acc
  ELSE LET s == Dig(a, i) + Dig(b, i) + carry
       IN  AddFrom(a, b, i + 1, s \div B, <<s % B>> \o acc)
WAdd(a, b) == IF Short(a) /\ Short(b) THEN WI(ToI(a) + ToI(b))
              ELSE AddFrom(a, b, 1, 0, <<>>)

\* a - b, for a >= b
RECURSIVE SubFrom(_, _, _, _, _)
SubFrom(a, b, i, borrow, acc) ==
  IF i > Len(a) THEN Strip(acc)
  ELSE LET d == Dig(b, i) + borrow
           x == Dig(a, i)
       IN  IF x >= d THEN SubFrom(a, b, i + 1, 0, <<x - d>> \o acc)
           ELSE SubFrom(a, b, i + 1, 1, <<x + B - d>> \o acc)
WSub(a, b) == IF Short(a) THEN WI(ToI(a) - ToI(b)) ELSE SubFrom(a, b, 1, 0, <<>>)

\* a * k for a TLC integer k < 200000
RECURSIVE MulFrom(_, _, _, _, _)
MulFrom(a, k, i, carry, acc) ==
  IF i > Len(a)
  THEN Strip(WI(carry) \o acc)
  ELSE LET s == Dig(a, i) * k + carry
       IN  MulFrom(a, k, i + 1, s \div B, <<s % B>> \o acc)
WMulI(a, k) == IF Len(a) = 1 THEN WI(a[1] * k)
               ELSE IF k = 0 THEN W0 ELSE MulFrom(a, k, 1, 0, <<>>)

\* general product: one row per digit of b
RECURSIVE MulRows(_, _, _)
MulRows(a, b, acc) ==
  IF b = <<>> THEN Strip(acc)
  ELSE MulRows(a, Tail(b), WAdd(Strip(acc \o <<0>>), WMulI(a, Head(b))))
WMul(a, b) == MulRows(a, b, W0)

\* a \div k and a % k for a TLC integer 0 < k < 200000
RECURSIVE DivModFrom(_, _, _, _, _)
DivModFrom(a, k, i, r, acc) ==
  IF i > Len(a) THEN <<Strip(acc), r>>
  ELSE LET x == r * B + a[i]
       IN  DivModFrom(a, k, i + 1, x % k, Append(acc, x \div k))
WDivModI(a, k) == IF Short(a) THEN <<WI(ToI(a) \div k), ToI(a) % k>>
                  ELSE DivModFrom(a, k, 1, 0, <<>>)
WDivI(a, k) == WDivModI(a, k)[1]
WModI(a, k) == WDivModI(a, k)[2]

\* a % b for any b > 0: long division, each digit by bisection
RECURSIVE Digit(_, _, _, _)
Digit(r, b, lo, hi) ==          \* the largest q in lo..hi with b * q <= r
  IF lo = hi THEN lo
  ELSE LET m == (lo + hi + 1) \div 2
       IN  IF WLe(WMulI(b, m), r) THEN Digit(r, b, m, hi) ELSE Digit(r, b, lo, m - 1)
RECURSIVE ModFrom(_, _, _, _)
ModFrom(a, b, i, r) ==
  IF i > Len(a) THEN r
  ELSE LET x == Strip(Append(r, a[i]))
           q == IF WLt(x, b) THEN 0 ELSE Digit(x, b, 1, B - 1)
       IN  ModFrom(a, b, i + 1, IF q = 0 THEN x ELSE WSub(x, WMulI(b, q)))
WMod(a, b) == IF WLt(a, b) THEN a
              ELSE IF Short(a) THEN WI(ToI(a) % ToI(b))
              ELSE ModFrom(a, b, 1, W0)

\* the smallest multiple-of-k count that holds a: ceil(a / k)
WCeilI(a, k) == LET d == WDivModI(a, k) IN IF d[2] = 0 THEN d[1] ELSE WAdd(d[1], W1)

U64Max == <<1844, 6744, 737, 955, 1615>>
U32Max == <<42, 9496, 7295>>
Fits64(a) == WLe(a, U64Max)
Fits32(a) == WLe(a, U32Max)
=============================================================================
