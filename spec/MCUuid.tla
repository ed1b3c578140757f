------------------------------- MODULE MCUuid -------------------------------
(* Theorems of Uuid.tla on boundary numbers, and every behaviour of a few calls over some identifiers, good and bad. *)
EXTENDS Uuid, TLC, Json
Words == {0, 1, 9, 10, 15, 16, 255, 256, 4095, 4096, 32767, 32768, 43981, 65535}
Numbers == {<<a, b, c, d>> : a, b, c, d \in Words}
\* one digit after the other
Walk == {[k \in 1..4 |-> IF k = w THEN d * Pow16[p] ELSE IF (d + p) % 2 = 0 THEN 0 ELSE 65535 - 15 * Pow16[p]] : w \in 1..4, p \in 1..4, d \in 0..15}
ASSUME \A n \in Numbers : Len(Hex(n)) = 16 /\ Number(Hex(n)) = n
ASSUME \A n \in Walk : Number(Hex(n)) = n
U(v, x) == [p \in 1..36 |-> IF p \in DashAt THEN Dash ELSE IF p = VersionAt THEN 52 ELSE IF p = VariantAt THEN v ELSE x]
Some == {U(v, x) : v \in {55, 56, 98}, x \in {48, 102, 65}} \cup {[U(56, 48) EXCEPT ![15] = 49], SubSeq(U(56, 48), 1, 35), U(56, 48) \o <<48>>}
ASSUME {u \in Some : WellFormed(u)} = {U(v, x) : v \in {56, 98}, x \in {48, 102}}
ASSUME \A pre \in {<<>>, <<97>>, Tmp} : \A u \in Some : WellFormed(u) => TmpName(pre, Tmp \o pre \o u) /\ IdOf(Tmp \o pre \o u) = u
VARIABLES S, n
Init == S = U0 /\ n = 0
Next == n < 4 /\ \E us \in {<<u>> : u \in Some} \cup {<<u, v>> : u, v \in Some} : New(S, us) /\ S' = Give(S, us) /\ n' = n + Len(us)
Spec == Init /\ [][Next]_<<S, n>>
Inv == UInv(S) /\ Cardinality(S.given) = n
=============================================================================
