------------------------------ MODULE TraceUuid ------------------------------
(* Validates recorded calls against Uuid.tla. *)
EXTENDS Uuid, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES S, l, live
vars == <<S, l, live>>
Got(ev) == CASE ev.op.o = "Hex" -> <<>>
             [] ev.op.o = "Tmp" -> [i \in DOMAIN ev.got |-> IdOf(ev.got[i])]
             [] OTHER -> ev.got
Diagnosis(ev) ==
  CASE ev.op.o = "Hex" -> IF ev.got = <<Hex(ev.op.w)>> THEN "" ELSE "the digits of a number"
    [] ev.op.o = "Tmp" /\ \E i \in DOMAIN ev.got : ~TmpName(ev.op.pre, ev.got[i]) -> "the name of a temporary file"
    [] \E i \in DOMAIN Got(ev) : ~WellFormed(Got(ev)[i]) -> "the form of an identifier"
    [] ~New(S, Got(ev)) -> "an identifier was given twice"
    [] OTHER -> ""
Init == S = U0 /\ l = 1 /\ live = FALSE
Reject(name, d) == PrintT("REJECT " \o ToJson(<<l, name, d>>)) /\ live' = FALSE /\ S' = S
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET ev == Trace[l] IN
     CASE ev.e = "Begin" -> S' = U0 /\ live' = TRUE
       [] ev.e = "Op" /\ live -> IF Diagnosis(ev) = "" THEN S' = Give(S, Got(ev)) /\ live' = live ELSE Reject(ev.op.o, Diagnosis(ev))
       [] ev.e = "End" /\ live -> IF Random(S) THEN UNCHANGED <<S, live>> ELSE Reject("End", "the digits are not random")
       [] ev.e \in {"Crash", "Hang"} -> Reject(ev.e, ev.e)
       [] OTHER -> UNCHANGED <<S, live>>
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ PrintT(<<"CONSUMED", Len(Trace)>>)
=============================================================================
