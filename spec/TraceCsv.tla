------------------------------- MODULE TraceCsv -------------------------------
(* Validates recorded imports and exports against Csv.tla (see TraceMVault). *)
EXTENDS Csv, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES st, l, live
vars == <<st, l, live>>

\* a bag is recorded as a list of <<row, count>>
BagOf(list) == [r \in {list[i][1] : i \in DOMAIN list} |-> list[CHOOSE i \in DOMAIN list : list[i][1] = r][2]]
Obs(ev) == [ok |-> ev.ok, errs |-> ev.errs, raw |-> ev.raw, text |-> ev.text, set |-> BagOf(ev.set),
            rows |-> [v \in {1, 2} |-> BagOf(ev.rows[v])]]
SeenOK(ev) ==
  /\ ev.x = ""
  /\ \A v \in {1, 2} : Cardinality({ev.rows[v][i][1] : i \in DOMAIN ev.rows[v]}) = Len(ev.rows[v])
                       /\ ev.size[v] = BagSize(BagOf(ev.rows[v]))
StateOK(S, o) == \A v \in {1, 2} : S.v[v].on => S.v[v].rows = o.rows[v]
KeysOK(S, ev) == \A v \in {1, 2} : S.v[v].on => [i \in DOMAIN S.v[v].keys |-> S.v[v].keys[i].k] = ev.keys[v]

Accept(ev) ==
  LET o == Obs(ev) IN
  /\ SeenOK(ev)
  /\ CsvPre(st, ev.op)
  /\ LET S == CsvNext(st, ev.op, o) IN StateOK(S, o) /\ KeysOK(S, ev)
  /\ CsvOut(st, ev.op, o)
Diagnosis(ev) ==
  IF ev.e # "Op" THEN ev.e
  ELSE IF ~SeenOK(ev) THEN "inconsistent observation " \o ev.x
  ELSE IF ~CsvPre(st, ev.op) THEN "precondition"
  ELSE IF ~StateOK(CsvNext(st, ev.op, Obs(ev)), Obs(ev)) THEN "records"
  ELSE IF ~KeysOK(CsvNext(st, ev.op, Obs(ev)), ev) THEN "keys"
  ELSE "result"

Init == st = InitState /\ l = 1 /\ live = FALSE
Reject(ev) == /\ PrintT("REJECT " \o ToJson(<<l, IF ev.e = "Op" THEN ev.op.o ELSE ev.e, Diagnosis(ev)>>))
              /\ live' = FALSE /\ st' = st
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET ev == Trace[l] IN
     CASE ev.e = "Begin" -> st' = InitState /\ live' = TRUE
       [] ev.e = "Op" /\ live -> IF Accept(ev) THEN st' = CsvNext(st, ev.op, Obs(ev)) /\ live' = live ELSE Reject(ev)
       [] ev.e = "End" /\ live -> IF ev.grow <= 0 THEN UNCHANGED <<st, live>> ELSE Reject(ev)
       [] ev.e \in {"Crash", "Hang"} -> Reject(ev)
       [] OTHER -> UNCHANGED <<st, live>>
Spec == Init /\ [][Next]_vars
Inv == live => CsvUnique(st)
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ PrintT(<<"CONSUMED", Len(Trace)>>)
=============================================================================
