------------------------------- MODULE GenSaver -------------------------------
(* Generates random scripts of calls of the value containers.  PROFILE        *)
(* "savers": mostly single data savers; "conts": mostly containers.           *)
EXTENDS Saver, Json, IOUtils
Profile == IOEnv.PROFILE
Seed == atoi(IOEnv.SEED)
NScripts == atoi(IOEnv.NSCRIPTS)
Depth == atoi(IOEnv.DEPTH)

VARIABLES idx, n, w, hist, st
vars == <<idx, n, w, hist, st>>
W0(i) == <<1 + ((Seed * 7919 + i * 104729) % 30000), 1 + ((i * 1009 + Seed * 31) % 30000), 1 + ((Seed * 257 + i * 65537) % 30000)>>
WNext(u) == <<(171 * u[1]) % 30269, (172 * u[2]) % 30307, (170 * u[3]) % 30323>>
X(u, i) == (((u[1] * (i + 11)) % 30271) + ((u[2] * (((i * i) % 509) + 3)) % 30293) + u[3]) \div 3
R(i, m) == X(w, i) % m
R0(i, m) == X(WNext(WNext(W0(idx))), i) % m       \* fixed for the script
Chance(i, p) == R(i, 100) < p
Nth(q, i) == q[1 + R(i, Len(q))]

Txt(s) == CASE s = "0" -> <<48>> [] s = "1" -> <<49>> [] s = "-1" -> <<45, 49>> [] s = "127" -> <<49, 50, 55>> [] s = "-128" -> <<45, 49, 50, 56>> [] s = "255" -> <<50, 53, 53>>
Texts(t) ==
  CASE t = "str" -> << <<>>, <<97>>, <<48>>, <<65, 32, 98, 10>>, [i \in 1..40 |-> 97 + (i % 26)], <<208, 182>>, <<0>>, <<116, 114, 117, 101>> >>
    [] t = "bool" -> <<TrueText, FalseText>>
    [] t \in IntTypes -> <<Txt("0"), Txt("1"), IntMax[t], IF t \in SignedTypes THEN <<Minus>> \o IntMin[t] ELSE Txt("255")>>
    [] t = "f64" -> << <<48, 46, 48, 48, 48, 48, 48, 48>>, <<45, 49, 46, 53, 48, 48, 48, 48, 48>>, <<126, 48, 46, 49, 48, 48, 48, 48, 48>>, <<49, 50, 51, 52, 53, 46, 50, 53, 48, 48, 48, 48>> >>
    [] t = "i8" -> <<Txt("0"), Txt("-1"), Txt("127"), Txt("-128"), <<54, 53>> >>
    [] t = "u8" -> <<Txt("0"), Txt("1"), Txt("255"), <<54, 53>> >>
    [] OTHER -> << <<48>>, <<49>>, <<50>>, <<51>> >>
TypeList == <<"str", "i32", "obj", "ptr", "bool", "f64", "u64", "i16", "i8", "u8", "obj", "ptr", "str">>
\* a script uses few types, keys and values, so that they meet
TheType(i) == TypeList[1 + ((R0(1, 13) + R(i, 3) * (1 + R0(2, 4))) % 13)]
Keys == << <<>>, <<97>>, <<97, 97>>, <<98>>, <<200>>, <<65>>, [i \in 1..20 |-> 107], <<97, 0, 98>> >>
KeyAt(i) == Keys[1 + ((R0(3, 8) + R(i, 3) * (1 + R0(4, 2))) % 8)]
StrTexts == << <<49>>, <<>>, <<45, 55>>, <<97>>, TrueText, FalseText, <<48, 46, 53>>, <<51, 50, 55, 54, 56>>, <<49, 97>>, <<45>>, <<49, 46, 48>>, <<48, 48, 55>>, IntMax["u64"], Txt("-128") >>
OpDel(i) == Nth(<<0, 0, 1, 2, 1>>, i)
WithVal(op) == LET t == TheType(20) IN
  [x \in DOMAIN op \cup {"t", "x", "d"} |-> CASE x = "t" -> t [] x = "x" -> Nth(Texts(t), 21) [] x = "d" -> OpDel(22) [] OTHER -> op[x]]
OnS == SetToSeq({s \in Savers : st.s[s].on})   OffS == SetToSeq({s \in Savers : ~st.s[s].on})
OnC == SetToSeq({c \in Conts : st.c[c].on})    OffC == SetToSeq({c \in Conts : ~st.c[c].on})
\* the type of a value that is there, most of the time
HeldType(v) == IF v.t # "void" /\ Chance(30, 75) THEN v.t ELSE TheType(31)
KindOf == Nth(<< <<"hash", "map", "mhash", "mmap">>[1 + R0(5, 4)], Nth(<<"hash", "map", "mhash", "mmap">>, 40)>>, 41)
\* what a number text with more digits than the type holds gives is not specified
Clear1(x, values) == IF Vague("f64", x) /\ \E v \in values : v.t = "f64" THEN <<49>> ELSE x
SaverOp ==
  IF OnS = <<>> \/ (OffS # <<>> /\ Chance(50, 25))
  THEN LET s == Nth(OffS, 51) IN
       IF OnS # <<>> /\ Chance(52, 40) THEN [o |-> "SCopy", s |-> s, q |-> Nth(OnS, 53)]
       ELSE IF Chance(54, 30) THEN [o |-> "SNew", s |-> s] ELSE WithVal([o |-> "SVal", s |-> s])
  ELSE LET s == Nth(OnS, 55)  q == Nth(OnS, 56) IN
       CASE R(57, 20) \in 0..3 -> WithVal([o |-> "SSet", s |-> s])
         [] R(57, 20) \in 4..6 -> [o |-> "SAsg", s |-> s, q |-> q]
         [] R(57, 20) \in 7..8 -> [o |-> "SSwap", s |-> s, q |-> q]
         [] R(57, 20) \in 9..11 -> [o |-> "SReset", s |-> s]
         [] R(57, 20) \in 12..14 -> [o |-> "SStrSet", s |-> s, text |-> Clear1(IF Chance(58, 50) /\ st.s[s].v.t \in TextTypes THEN TextOf(st.s[s].v.t, Nth(Texts(st.s[s].v.t), 59)) ELSE Nth(StrTexts, 59), {st.s[s].v})]
         [] R(57, 20) \in 15..17 -> [o |-> "SGet", s |-> s, t |-> HeldType(st.s[s].v)]
         [] OTHER -> [o |-> "SDel", s |-> s]
ContOp ==
  IF OnC = <<>> \/ (OffC # <<>> /\ Chance(50, 8))
  THEN LET c == Nth(OffC, 51) IN
       IF OnC # <<>> /\ Chance(52, 60) THEN [o |-> IF Chance(53, 70) THEN "CCopy" ELSE "CMove", c |-> c, e |-> Nth(OnC, 54)]
       ELSE [o |-> "CNew", c |-> c, kind |-> KindOf]
  ELSE LET c == Nth(OnC, 55)  k == KeyAt(60)  same == SetToSeq({e \in Conts : st.c[e].on /\ st.c[e].kind = st.c[c].kind})
           i == At(st.c[c].els, k)  v == IF i = {} THEN Void ELSE st.c[c].els[CHOOSE j \in i : TRUE].v
           s == IF OnS = <<>> THEN 0 ELSE Nth(OnS, 61) IN
       CASE R(57, 40) \in 0..7 -> WithVal([o |-> "CAdd", c |-> c, k |-> k])
         [] R(57, 40) \in 8..12 -> WithVal([o |-> "CSet", c |-> c, k |-> k])
         [] R(57, 40) \in 13..14 -> IF s = 0 THEN [o |-> "SNew", s |-> 1] ELSE [o |-> "CAddS", c |-> c, k |-> k, s |-> s]
         [] R(57, 40) \in 15..16 -> IF s = 0 THEN WithVal([o |-> "SVal", s |-> 1]) ELSE [o |-> "CSetS", c |-> c, k |-> k, s |-> s]
         [] R(57, 40) \in 17..19 -> [o |-> "CStrSet", c |-> c, k |-> k, text |-> Clear1(IF Chance(58, 50) /\ v.t \in TextTypes THEN TextOf(v.t, Nth(Texts(v.t), 59)) ELSE Nth(StrTexts, 59), {st.c[c].els[j].v : j \in i})]
         [] R(57, 40) \in 20..22 -> [o |-> "CGet", c |-> c, k |-> k, t |-> HeldType(v)]
         [] R(57, 40) \in 23..24 -> IF s = 0 THEN [o |-> "SNew", s |-> 1] ELSE [o |-> "CGetS", c |-> c, k |-> k, s |-> s]
         [] R(57, 40) = 25 -> [o |-> "CStr", c |-> c, k |-> k]
         [] R(57, 40) = 26 -> [o |-> "CIs", c |-> c, k |-> k]
         [] R(57, 40) \in 27..32 -> [o |-> "CErase", c |-> c, k |-> k]
         [] R(57, 40) = 33 -> [o |-> "CClear", c |-> c]
         [] R(57, 40) \in 34..35 -> IF Multi(st.c[c].kind) THEN [o |-> "CAll", c |-> c, k |-> k] ELSE [o |-> "CIs", c |-> c, k |-> k]
         [] R(57, 40) = 36 -> WithVal([o |-> "CIt", c |-> c, k |-> k])
         [] R(57, 40) \in 37..38 -> [o |-> "CAsg", c |-> c, e |-> Nth(same, 62)]
         [] OTHER -> [o |-> "CDel", c |-> c]
Mk == IF Chance(70, IF Profile = "savers" THEN 85 ELSE 20) THEN SaverOp ELSE ContOp

Init == idx \in 1..NScripts /\ n = 0 /\ hist = <<>> /\ st = SInit /\ w = WNext(WNext(WNext(WNext(W0(idx)))))
Next == /\ n < Depth
        /\ n' = n + 1 /\ idx' = idx /\ w' = WNext(w)
        /\ LET op == Mk IN
           /\ Assert(SPre(st, op), <<"precondition", op>>)
           /\ hist' = Append(hist, op)
           /\ st' = (CHOOSE o \in SStep(st, op) : TRUE).st
        /\ (n' = Depth => PrintT("SCRIPT " \o ToJson(hist')))
Spec == Init /\ [][Next]_vars
View == <<idx, n, hist>>
=============================================================================
