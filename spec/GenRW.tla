-------------------------------- MODULE GenRW --------------------------------
(***************************************************************************)
(* Enumerates what one thread may do with the locks: every nest of N       *)
(* acquisitions of LOCKS locks in which correct users cannot block each    *)
(* other: lock 1 before lock 2, no second acquisition of a plain lock, no  *)
(* upgrade of a lock below another one.  KIND: plain or rec.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Kind == IOEnv.KIND
N == atoi(IOEnv.N)
NLocks == atoi(IOEnv.LOCKS)

Holds(h, a, m) == \E i \in DOMAIN h : h[i] = <<a, m>>
Below(h, m) == \E i \in DOMAIN h : h[i][2] > m
Allowed(h, a, m) ==
  IF Kind = "plain" THEN ~Holds(h, "R", m) /\ ~Holds(h, "W", m) /\ ~Below(h, m)
  ELSE \/ Holds(h, "W", m)
       \/ a = "R" /\ Holds(h, "R", m)
       \/ ~Below(h, m)
RECURSIVE Words(_, _)
Words(k, h) ==
  IF k = 0 /\ h = <<>> THEN {<<>>}
  ELSE (IF h = <<>> THEN {} ELSE {<< <<"u", h[Len(h)][2]>> >> \o w : w \in Words(k, SubSeq(h, 1, Len(h) - 1))})
       \cup (IF k = 0 THEN {} ELSE UNION {{<< <<c[1], c[2]>> >> \o w : w \in Words(k - 1, Append(h, c))} :
                                          c \in {x \in {"R", "W"} \X (1..NLocks) : Allowed(h, x[1], x[2])}})
VARIABLE w
Init == w \in Words(N, <<>>) /\ PrintT("SCRIPT " \o ToJson(w))
Spec == Init /\ [][FALSE]_w
=============================================================================
