------------------------------- MODULE MCSaver -------------------------------
(* Explores Saver.tla exhaustively within small bounds and prints its graph   *)
(* as scripts.  FAMILY: savers (three data savers), hash, map, mhash, mmap    *)
(* (two containers of the kind and a data saver).                             *)
EXTENDS Saver, Json, IOUtils
Fam == IOEnv.FAMILY
DepthMax == atoi(IOEnv.DEPTH)
Emit == IOEnv.EMIT = "1"
VARIABLES st, hist
vars == <<st, hist>>
K1 == <<97>>  K2 == <<98>>
Vals == {Val("i32", <<49>>, 0), Val("str", <<97>>, 1), Val("obj", <<50>>, 2)}
Put(op, v) == [x \in DOMAIN op \cup {"t", "x", "d"} |-> CASE x = "t" -> v.t [] x = "x" -> v.x [] x = "d" -> v.d [] OTHER -> op[x]]
SOps(S) ==
  {[o |-> p, s |-> s] : p \in {"SNew", "SReset", "SDel"}, s \in S}
  \cup {Put([o |-> p, s |-> s], v) : p \in {"SVal", "SSet"}, s \in S, v \in Vals}
  \cup {[o |-> p, s |-> s, q |-> q] : p \in {"SCopy", "SAsg", "SSwap"}, s \in S, q \in S}
  \cup {[o |-> "SStrSet", s |-> s, text |-> x] : s \in S, x \in {<<55>>, <<120>>}}
  \cup {[o |-> "SGet", s |-> s, t |-> t] : s \in S, t \in {"i32", "str", "obj"}}
COps ==
  {[o |-> p, c |-> c, k |-> k] : p \in {"CErase", "CStr", "CIs"} \cup (IF Multi(Fam) THEN {"CAll"} ELSE {}), c \in {1}, k \in {K1, K2}}
  \cup {[o |-> p, c |-> 1] : p \in {"CClear", "CDel"}}
  \cup {[o |-> "CNew", c |-> 1, kind |-> Fam]}
  \cup {[o |-> p, c |-> 2, e |-> 1] : p \in {"CCopy", "CMove"}} \cup {[o |-> "CAsg", c |-> c, e |-> e] : c \in {1, 2}, e \in {1, 2}}
  \cup {Put([o |-> p, c |-> 1, k |-> k], v) : p \in {"CAdd", "CSet"}, k \in {K1, K2}, v \in Vals}
  \cup {Put([o |-> "CIt", c |-> 1, k |-> K1], v) : v \in Vals}
  \cup {[o |-> p, c |-> 1, k |-> K1, s |-> 1] : p \in {"CAddS", "CSetS", "CGetS"}}
  \cup {[o |-> "CStrSet", c |-> 1, k |-> K1, text |-> x] : x \in {<<55>>, <<120>>}}
  \cup {[o |-> "CGet", c |-> 1, k |-> k, t |-> t] : k \in {K1, K2}, t \in {"i32", "str", "obj"}}
Ops == IF Fam = "savers" THEN SOps({1, 2, 3}) ELSE COps \cup {[o |-> "SNew", s |-> 1], [o |-> "SReset", s |-> 1]} \cup {Put([o |-> "SVal", s |-> 1], v) : v \in Vals}
Setup == IF Fam = "savers" THEN <<>> ELSE << [o |-> "CNew", c |-> 1, kind |-> Fam] >>

SetupStep == Len(hist) < Len(Setup) /\ LET op == Setup[Len(hist) + 1] IN \E o \in SStep(st, op) : st' = o.st /\ hist' = Append(hist, op)
Stutters == SetToSeq({op \in Ops : SPre(st, op) /\ \E o \in SStep(st, op) : o.st = st})
Free == /\ Len(hist) >= Len(Setup)
        /\ (Emit => PrintT("SCRIPT " \o ToJson(hist \o Stutters)))
        /\ Len(hist) < Len(Setup) + DepthMax
        /\ \E op \in Ops :
             /\ SPre(st, op)
             /\ Assert(SStep(st, op) # {}, <<"no outcome", op>>)
             /\ \E o \in SStep(st, op) :
                  /\ Assert(SFrame(op, st, o), <<"SFrame", op>>) /\ Assert(DelOnce(op, st, o), <<"DelOnce", op>>)
                  /\ st' = o.st /\ hist' = Append(hist, op)
                  /\ (Emit /\ st' # st => PrintT("SCRIPT " \o ToJson(hist')))
Init == st = SInit /\ hist = <<>>
Next == SetupStep \/ Free
Spec == Init /\ [][Next]_vars
View == <<st, IF Len(hist) < Len(Setup) THEN Len(hist) ELSE Len(Setup)>>
Inv == SaverInv(st)
=============================================================================
