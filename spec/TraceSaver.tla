------------------------------ MODULE TraceSaver ------------------------------
(* Validates recorded calls of the value containers against Saver.tla.  The  *)
(* delete function of a value cannot be seen until it runs and a multi       *)
(* container may pick any element with the key, so the state of the          *)
(* validation is the set of all states that explain what was seen.           *)
EXTENDS Saver, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sts, l, live
vars == <<sts, l, live>>

Fits(st, ev) ==
  /\ \A s \in Savers : ev.s[s] = IF st.s[s].on THEN << Look(st.s[s].v) >> ELSE <<>>
  /\ \A c \in Conts : ev.n[c] = (IF st.c[c].on THEN Len(st.c[c].els) ELSE -1) /\ ElsOK(st.c[c], ev.c[c])
  /\ ev.live = LiveObjects(st)
Answers(st, o, ev) ==
  /\ o.ok = ev.ok
  /\ VOK(st, ev.op, o.v, ev.v)
  /\ ev.del = [i \in DOMAIN o.del |-> <<o.del[i].d, o.del[i].t, o.del[i].x>>]
After(ev) == UNION {{o.st : o \in {o \in SStep(st, ev.op) : Answers(st, o, ev) /\ Fits(o.st, ev)}} : st \in {st \in sts : SPre(st, ev.op)}}
Diagnosis(ev) ==
  IF ev.e # "Op" THEN ev.e
  ELSE IF ev.x # "" THEN "inconsistent observation " \o ev.x
  ELSE IF ~\E st \in sts : SPre(st, ev.op) THEN "precondition"
  ELSE IF ~\E st \in sts : \E o \in SStep(st, ev.op) : Fits(o.st, ev)
  THEN IF \E st \in sts : \E o \in SStep(st, ev.op) : Fits(o.st, [ev EXCEPT !.live = LiveObjects(o.st)]) THEN "number of live values" ELSE "values"
  ELSE "result"

Init == sts = {SInit} /\ l = 1 /\ live = FALSE
Reject(ev) == /\ PrintT("REJECT " \o ToJson(<<l, IF ev.e = "Op" THEN ev.op.o ELSE ev.e, Diagnosis(ev)>>))
              /\ live' = FALSE /\ sts' = sts
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET ev == Trace[l] IN
     CASE ev.e = "Begin" -> sts' = {SInit} /\ live' = TRUE
       [] ev.e = "Op" /\ live -> IF ev.x = "" /\ After(ev) # {} THEN sts' = After(ev) /\ live' = live ELSE Reject(ev)
       [] ev.e = "End" /\ live -> IF ev.grow <= 0 THEN UNCHANGED <<sts, live>> ELSE Reject(ev)
       [] ev.e \in {"Crash", "Hang"} -> Reject(ev)
       [] OTHER -> UNCHANGED <<sts, live>>
Spec == Init /\ [][Next]_vars
Inv == live => \A st \in sts : SaverInv(st)
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ PrintT(<<"CONSUMED", Len(Trace)>>)
=============================================================================
