-------------------------------- MODULE StrLib --------------------------------
(* Strings as sequences of code points, byte strings as sequences of 0..255,    *)
(* numbers of arbitrary size as sequences of hexadecimal digits without leading *)
(* zeros (zero is the empty sequence).                                          *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets
CharsOf(s) == {s[i] : i \in 1..Len(s)}

\* hexadecimal ------------------------------------------------------------------
HexCp(d) == IF d < 10 THEN 48 + d ELSE 87 + d
IsHexCp(c) == c \in 48..57 \/ c \in 97..102 \/ c \in 65..70
HexVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE c - 55
RECURSIVE Strip0(_)
Strip0(d) == IF d # <<>> /\ Head(d) = 0 THEN Strip0(Tail(d)) ELSE d
HexStr(d) == IF d = <<>> THEN <<48>> ELSE [i \in 1..Len(d) |-> HexCp(d[i])]
Zeros(n) == [i \in 1..n |-> 0]
\* n digits, most significant first (the low ones if there are more)
Pad(d, n) == IF Len(d) <= n THEN Zeros(n - Len(d)) \o d ELSE SubSeq(d, Len(d) - n + 1, Len(d))
\* characters with which int(s, 16) of python may be lenient: not specified here
OddCp == {9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 43, 45, 95, 88, 120}
ParseHex(s) == IF s = <<>> THEN [st |-> "bad", d |-> <<>>]
               ELSE IF \A c \in CharsOf(s) : IsHexCp(c) THEN [st |-> "ok", d |-> Strip0([i \in 1..Len(s) |-> HexVal(s[i])])]
               ELSE IF \A c \in CharsOf(s) : IsHexCp(c) \/ c \in OddCp \/ c > 127 THEN [st |-> "odd", d |-> <<>>]
               ELSE [st |-> "bad", d |-> <<>>]
\* small numbers
Small(d) == FoldLeft(LAMBDA a, x : 16 * a + x, 0, d)
RECURSIVE Digits(_)
Digits(n) == IF n = 0 THEN <<>> ELSE Append(Digits(n \div 16), n % 16)
Bytes(d) == [i \in 1..(Len(d) \div 2) |-> 16 * d[2 * i - 1] + d[2 * i]]     \* of an even number of digits
Nibbles(b) == [i \in 1..(2 * Len(b)) |-> IF i % 2 = 1 THEN b[(i + 1) \div 2] \div 16 ELSE b[i \div 2] % 16]

\* text -------------------------------------------------------------------------
LowerCp(c) == IF c \in 65..90 THEN c + 32 ELSE c
Lower(s) == [i \in 1..Len(s) |-> LowerCp(s[i])]
Normal(s) == [i \in 1..Len(s) |-> IF s[i] = 95 THEN 45 ELSE LowerCp(s[i])]   \* of a configured header name
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Split(s, c) == FoldLeft(LAMBDA acc, x : IF x = c THEN Append(acc, <<>>) ELSE [acc EXCEPT ![Len(acc)] = Append(@, x)],
                        <<<<>>>>, s)
RECURSIVE StripL(_)
StripL(s) == IF s # <<>> /\ Head(s) \in {9, 10, 13, 32} THEN StripL(Tail(s)) ELSE s
RECURSIVE StripR(_)
StripR(s) == IF s # <<>> /\ s[Len(s)] \in {9, 10, 13, 32} THEN StripR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == StripR(StripL(s))

\* UTF-8 --------------------------------------------------------------------------
Utf8Cp(c) == IF c < 128 THEN <<c>>
             ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
             ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
             ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Utf8(s) == FoldLeft(LAMBDA a, c : a \o Utf8Cp(c), <<>>, s)
\* decoding: acc = [ok, out, need (continuation bytes to come), cp, min]
Utf8Step(a, b) ==
  IF ~a.ok THEN a
  ELSE IF a.need > 0 THEN
    IF b \notin 128..191 THEN [a EXCEPT !.ok = FALSE]
    ELSE LET cp == 64 * a.cp + (b - 128) IN
         IF a.need > 1 THEN [a EXCEPT !.need = @ - 1, !.cp = cp]
         ELSE IF cp < a.min \/ cp > 1114111 \/ cp \in 55296..57343 THEN [a EXCEPT !.ok = FALSE]
         ELSE [a EXCEPT !.need = 0, !.out = Append(@, cp)]
  ELSE IF b < 128 THEN [a EXCEPT !.out = Append(@, b)]
  ELSE IF b \in 194..223 THEN [a EXCEPT !.need = 1, !.cp = b - 192, !.min = 128]
  ELSE IF b \in 224..239 THEN [a EXCEPT !.need = 2, !.cp = b - 224, !.min = 2048]
  ELSE IF b \in 240..244 THEN [a EXCEPT !.need = 3, !.cp = b - 240, !.min = 65536]
  ELSE [a EXCEPT !.ok = FALSE]
Utf8Dec(b) == LET a == FoldLeft(Utf8Step, [ok |-> TRUE, out |-> <<>>, need |-> 0, cp |-> 0, min |-> 0], b)
              IN [ok |-> a.ok /\ a.need = 0, s |-> a.out]

\* percent encoding -----------------------------------------------------------------
RECURSIVE PctBytes(_)
PctBytes(s) == IF s = <<>> THEN <<>>
               ELSE IF Len(s) >= 3 /\ s[1] = 37 /\ IsHexCp(s[2]) /\ IsHexCp(s[3])
                    THEN <<16 * HexVal(s[2]) + HexVal(s[3])>> \o PctBytes(Drop(s, 3))
                    ELSE Utf8Cp(Head(s)) \o PctBytes(Tail(s))
PctDec(s) == IF \A i \in 1..Len(s) : s[i] # 37 THEN [ok |-> TRUE, s |-> s] ELSE Utf8Dec(PctBytes(s))
HexUp(d) == IF d < 10 THEN 48 + d ELSE 55 + d
Plain(c) == c \in 48..57 \/ c \in 65..90 \/ c \in 97..122 \/ c \in {45, 46, 47, 95, 126}
PctEnc(s) == FoldLeft(LAMBDA a, b : a \o (IF Plain(b) THEN <<b>> ELSE <<37, HexUp(b \div 16), HexUp(b % 16)>>), <<>>, Utf8(s))
=============================================================================
