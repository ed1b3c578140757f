------------------------------- MODULE GenUuid -------------------------------
(* Scripts of calls: numbers at the boundaries of every digit and random ones, identifiers one after the other and by several *)
(* threads, by forked children and by programs started anew; names of temporary files with prefixes. *)
EXTENDS MCUuid, IOUtils
Seed == atoi(IOEnv.SEED)
NScripts == atoi(IOEnv.NSCRIPTS)
Rnd(i, k) == LET a == (((i * 7919 + (Seed % 9999) * 10472 + k * 31337) % 30269) * 171) % 30269
                 b == (((i * 1009 + (Seed % 9999) * 31 + k * 257) % 30307) * 172) % 30307 IN (a * 3 + b * 5 + ((a * 7) % 65521)) % 65536
HexOp(ws) == [o |-> "Hex", w |-> ws]
Boundaries == SetToSeq({HexOp(ws) : ws \in Walk \cup {w \in Numbers : w[2] \in {0, 65535} /\ w[3] \in {0, 32768, 65535}}})
Randoms == [i \in 1..400 |-> HexOp(<<Rnd(i, 1), Rnd(i, 2), Rnd(i, 3), Rnd(i, 4)>>)]
PreList == << <<>>, <<97>>, <<45>>, <<109, 118, 108, 116, 95>>, Tmp, <<32, 46>>, [i \in 1..60 |-> 97 + (i % 26)], <<208, 182>>, <<37, 115>> >>
Ids == [i \in 1..12 |-> IF i % 3 = 0 THEN [o |-> "Par", th |-> 2 + i \div 3, n |-> 100] ELSE [o |-> "Ids", n |-> 300]]
Procs == <<[o |-> "Fork", ch |-> 3, n |-> 20], [o |-> "Anew", ch |-> 3, n |-> 20], [o |-> "Fork", ch |-> 2, n |-> 5]>>
Names == [i \in 1..(3 * Len(PreList)) |-> [o |-> "Tmp", pre |-> PreList[1 + (i % Len(PreList))], n |-> 5]]
Scripts == <<Boundaries, Randoms>> \o [i \in 1..NScripts |-> Ids \o Procs \o Names]
ASSUME \A i \in DOMAIN Scripts : PrintT("SCRIPT " \o ToJson(Scripts[i]))
GInit == S = U0 /\ n = 0
GSpec == GInit /\ [][FALSE]_<<S, n>>
=============================================================================
