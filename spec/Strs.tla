-------------------------------- MODULE Strs --------------------------------
(* Strings as the library sees them. TLC lets Len, SubSeq and \o work on     *)
(* strings, so they are used directly; characters are one-element strings.   *)
(* Only ASCII letters have a case, as in the implementation's case-          *)
(* insensitive comparisons.                                                  *)
EXTENDS Naturals, Sequences, FiniteSets, Json

\* Characters that cannot be written in TLA+ source: white space and controls.
Tab == JsonDeserialize("strtab.json")
SeqSet(q) == {q[i] : i \in 1..Len(q)}
WS == SeqSet(Tab.ws)
Ctl == SeqSet(Tab.ctl)

At(s, i) == SubSeq(s, i, i)
Chars(s) == [i \in 1..Len(s) |-> At(s, i)]

RECURSIVE Flat(_)
Flat(q) == IF Len(q) = 0 THEN "" ELSE IF Len(q) = 1 THEN q[1]
           ELSE LET h == Len(q) \div 2
                IN Flat(SubSeq(q, 1, h)) \o Flat(SubSeq(q, h + 1, Len(q)))

RECURSIVE Join(_, _)
Join(q, sep) == IF Len(q) = 0 THEN "" ELSE IF Len(q) = 1 THEN q[1]
                ELSE q[1] \o sep \o Join(Tail(q), sep)

UpAlpha == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LoAlpha == "abcdefghijklmnopqrstuvwxyz"
UpSet == {At(UpAlpha, i) : i \in 1..26}
LoSet == {At(LoAlpha, i) : i \in 1..26}
IxUp(c) == CHOOSE i \in 1..26 : At(UpAlpha, i) = c
IxLo(c) == CHOOSE i \in 1..26 : At(LoAlpha, i) = c
ToLo == [c \in UpSet |-> At(LoAlpha, IxUp(c))]
ToUp == [c \in LoSet |-> At(UpAlpha, IxLo(c))]
Lower(s) == Flat([i \in 1..Len(s) |-> IF At(s, i) \in UpSet THEN ToLo[At(s, i)] ELSE At(s, i)])
Upper(s) == Flat([i \in 1..Len(s) |-> IF At(s, i) \in LoSet THEN ToUp[At(s, i)] ELSE At(s, i)])
EqCI(a, b) == Len(a) = Len(b) /\ Lower(a) = Lower(b)

Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Hex == Digits \cup {"a", "b", "c", "d", "e", "f", "A", "B", "C", "D", "E", "F"}

\* First non-white position at or after i; Len(s) + 1 if there is none.
RECURSIVE SkipWs(_, _)
SkipWs(s, i) == IF i <= Len(s) /\ At(s, i) \in WS THEN SkipWs(s, i + 1) ELSE i
RECURSIVE LastNonWs(_, _)
LastNonWs(s, i) == IF i >= 1 /\ At(s, i) \in WS THEN LastNonWs(s, i - 1) ELSE i
Trim(s) == SubSeq(s, SkipWs(s, 1), LastNonWs(s, Len(s)))

HasPrefix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
HasPrefixCI(s, p) == Len(s) >= Len(p) /\ EqCI(SubSeq(s, 1, Len(p)), p)
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Contains(s, c) == \E i \in 1..Len(s) : At(s, i) = c

\* All non-overlapping occurrences, left to right. `pat` is not empty.
RECURSIVE Replace(_, _, _)
Replace(s, pat, by) ==
  IF Len(s) < Len(pat) THEN s
  ELSE IF SubSeq(s, 1, Len(pat)) = pat THEN by \o Replace(Drop(s, Len(pat)), pat, by)
  ELSE At(s, 1) \o Replace(Drop(s, 1), pat, by)

RECURSIVE SplitFrom(_, _, _, _)
SplitFrom(s, c, from, i) ==
  IF i > Len(s) THEN <<SubSeq(s, from, Len(s))>>
  ELSE IF At(s, i) = c THEN <<SubSeq(s, from, i - 1)>> \o SplitFrom(s, c, i + 1, i + 1)
  ELSE SplitFrom(s, c, from, i + 1)
Split(s, c) == SplitFrom(s, c, 1, 1)

\* The components of a key: an empty one ends it.
RECURSIVE UptoEmpty(_)
UptoEmpty(q) == IF q = <<>> \/ q[1] = "" THEN <<>> ELSE <<q[1]>> \o UptoEmpty(Tail(q))
KeyPath(key) == UptoEmpty(Split(key, "."))

(* Unbounded integers as decimal strings, optionally signed. *)
RECURSIVE StripZeros(_)
StripZeros(s) == IF Len(s) > 1 /\ At(s, 1) = "0" THEN StripZeros(Drop(s, 1)) ELSE s
IsDigits(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : At(s, i) \in Digits
DigOrd == [c \in Digits |-> (CHOOSE i \in 1..10 : At("0123456789", i) = c)]
RECURSIVE LeqSameLen(_, _)
LeqSameLen(a, b) == IF a = b THEN TRUE
                    ELSE IF At(a, 1) = At(b, 1) THEN LeqSameLen(Drop(a, 1), Drop(b, 1))
                    ELSE DigOrd[At(a, 1)] < DigOrd[At(b, 1)]
\* a <= b for digit strings without leading zeros
DigLeq(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LeqSameLen(a, b))
IsNeg(s) == Len(s) > 0 /\ At(s, 1) = "-"
Mag(s) == IF IsNeg(s) THEN Drop(s, 1) ELSE s
IntLeq(a, b) == IF IsNeg(a) /\ IsNeg(b) THEN DigLeq(Mag(b), Mag(a))
                ELSE IF IsNeg(a) THEN TRUE ELSE IF IsNeg(b) THEN FALSE ELSE DigLeq(a, b)

UMax == [u8 |-> "255", u16 |-> "65535", u32 |-> "4294967295", u64 |-> "18446744073709551615",
         usize |-> "18446744073709551615", u128 |-> "340282366920938463463374607431768211455"]
IMax == [i8 |-> "127", i16 |-> "32767", i32 |-> "2147483647", i64 |-> "9223372036854775807",
         isize |-> "9223372036854775807", i128 |-> "170141183460469231731687303715884105727"]
IMin == [i8 |-> "-128", i16 |-> "-32768", i32 |-> "-2147483648", i64 |-> "-9223372036854775808",
         isize |-> "-9223372036854775808", i128 |-> "-170141183460469231731687303715884105728"]
UTypes == DOMAIN UMax
ITypes == DOMAIN IMax
FTypes == {"f32", "f64"}
FitsU(n, ty) == ~IsNeg(n) /\ DigLeq(n, UMax[ty])
FitsI(n, ty) == IntLeq(IMin[ty], n) /\ IntLeq(n, IMax[ty])
Fits(n, ty) == IF ty \in UTypes THEN FitsU(n, ty) ELSE FitsI(n, ty)

\* The integer a string denotes, by Rust's integer syntax; "" if it is none.
ParseUInt(s) == LET d == IF Len(s) > 0 /\ At(s, 1) = "+" THEN Drop(s, 1) ELSE s
                IN IF IsDigits(d) THEN StripZeros(d) ELSE ""
ParseInt(s) == IF IsNeg(s) /\ IsDigits(Mag(s))
               THEN LET m == StripZeros(Mag(s)) IN IF m = "0" THEN "0" ELSE "-" \o m
               ELSE ParseUInt(s)
=============================================================================
