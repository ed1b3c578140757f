--------------------------------- MODULE Uuid ---------------------------------
(***************************************************************************)
(* Names that MVault makes up (C22): hexadecimal numbers, identifiers of   *)
(* version 4 and names of temporary files.  Texts are sequences of         *)
(* character codes, 64-bit numbers four words of 16 bits, highest first.   *)
(* The state is the set of identifiers given so far.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt

Digits == [i \in 1..16 |-> IF i <= 10 THEN 47 + i ELSE 86 + i]           \* 0..9a..f
HexDigits == {Digits[i] : i \in 1..16}
DigitValue(c) == IF c < 58 THEN c - 48 ELSE c - 87
Pow16 == <<1, 16, 256, 4096>>
\* a number as its 16 digits, and back
HexWord(n) == [i \in 1..4 |-> Digits[1 + ((n \div Pow16[5 - i]) % 16)]]
Hex(ws) == HexWord(ws[1]) \o HexWord(ws[2]) \o HexWord(ws[3]) \o HexWord(ws[4])
WordOf(s) == DigitValue(s[1]) * 4096 + DigitValue(s[2]) * 256 + DigitValue(s[3]) * 16 + DigitValue(s[4])
Number(s) == [k \in 1..4 |-> WordOf(SubSeq(s, 4 * k - 3, 4 * k))]

\* xxxxxxxx-xxxx-4xxx-Vxxx-xxxxxxxxxxxx
Dash == 45
DashAt == {9, 14, 19, 24}
VersionAt == 15
VariantAt == 20
Variants == {56, 57, 97, 98}
FreeAt == (1..36) \ (DashAt \cup {VersionAt, VariantAt})
WellFormed(u) ==
  /\ Len(u) = 36
  /\ \A p \in 1..36 : u[p] \in (IF p \in DashAt THEN {Dash} ELSE IF p = VersionAt THEN {52} ELSE IF p = VariantAt THEN Variants ELSE HexDigits)
Tmp == <<47, 116, 109, 112, 47>>                                           \* /tmp/

U0 == [given |-> {}]
\* identifiers us were given: well-formed, none twice, none again
New(S, us) == /\ \A i \in DOMAIN us : WellFormed(us[i])
              /\ LET new == ToSet(us) IN Cardinality(new) = Len(us) /\ new \cap S.given = {}
Give(S, us) == [S EXCEPT !.given = @ \cup ToSet(us)]
TmpName(prefix, name) == /\ Len(name) = 5 + Len(prefix) + 36
                         /\ SubSeq(name, 1, 5 + Len(prefix)) = Tmp \o prefix
IdOf(name) == SubSeq(name, Len(name) - 35, Len(name))

\* What chance is expected to show, and shows in Enough identifiers for all practical purposes: every free digit takes every
\* value, and no two free digits depend on each other (of 256 pairs of digits an id has one; 2500 ids miss less than one on average)
Enough == 2500
Random(S) ==
  Cardinality(S.given) >= Enough =>
    /\ \A p \in FreeAt : {u[p] : u \in S.given} = HexDigits
    /\ {u[VariantAt] : u \in S.given} = Variants
    /\ \A p, q \in FreeAt : p < q => Cardinality({16 * DigitValue(u[p]) + DigitValue(u[q]) : u \in S.given}) > 200
UInv(S) == \A u \in S.given : WellFormed(u)
=============================================================================
