-------------------------------- MODULE Seen --------------------------------
(***************************************************************************)
(* The state of the specification that an observation of the real objects  *)
(* (a view, recorded by the drivers) shows.                                *)
(***************************************************************************)
EXTENDS MVault

MaxVals == [int |-> 9, str |-> 7, dbl |-> 3, bool |-> 1, u64 |-> 3, cus |-> 5]

\* The state that the driver observed
RecsSeen(vw) == vw.recs
SeenState(vw) ==
  LET rs == vw.recs
      pos == [i \in {rs[j][1] : j \in DOMAIN rs} |-> CHOOSE j \in DOMAIN rs : rs[j][1] = i]
      d(j) == LET ks == vw.v[rs[j][2]].keys IN
              [k \in {ks[x].k : x \in DOMAIN ks} |-> rs[j][3][CHOOSE x \in DOMAIN ks : ks[x].k = k]]
  IN [v |-> vw.v,
      s |-> [x \in SetSlots |-> [on |-> vw.s[x].on, p |-> vw.s[x].p, m |-> Range(vw.s[x].m)]],
      r |-> vw.r,
      rec |-> [i \in DOMAIN pos |-> [v |-> rs[pos[i]][2], d |-> d(pos[i])]]]
\* The observation is well formed
SeenOK(vw) ==
  /\ vw.x = <<>>
  /\ \A v \in VaultSlots : Cardinality({vw.v[v].keys[i].k : i \in DOMAIN vw.v[v].keys}) = Len(vw.v[v].keys)
  /\ \A j \in DOMAIN vw.recs : Len(vw.recs[j][3]) = Len(vw.v[vw.recs[j][2]].keys)
  /\ \A i, j \in DOMAIN vw.recs : i # j => vw.recs[i][1] # vw.recs[j][1]
  /\ \A v \in VaultSlots : vw.vsz[v] = Cardinality({j \in DOMAIN vw.recs : vw.recs[j][2] = v})
  /\ \A s \in SetSlots : vw.ssz[s] = Len(vw.s[s].m) /\ Len(vw.s[s].m) = Cardinality(Range(vw.s[s].m))
=============================================================================
