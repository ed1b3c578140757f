-------------------------------- MODULE MCCsv --------------------------------
(***************************************************************************)
(* The dialect against itself: whatever rows are written, in whichever     *)
(* style, reading gives the same rows; every text is either malformed or   *)
(* a rendering of the rows it is read as.  FAMILY: rows1, rows2, texts,    *)
(* numbers.                                                                *)
(* With EMIT=1 the texts are printed as scripts for the real code.         *)
(***************************************************************************)
EXTENDS Csv, Json, IOUtils
Fam == IOEnv.FAMILY
Len1 == atoi(IOEnv.LEN)
Emit == IOEnv.EMIT = "1"
Sep == 59  A == 97
Sigma == <<A, Sep, Quote, CR, LF>>
Seqs(n) == UNION {[1..k -> Range(Sigma)] : k \in 0..n}
VARIABLES x, ph
vars == <<x, ph>>
Fields(n) == Seqs(n)
Rows(n, w) == UNION {[1..k -> Fields(n)] : k \in 1..w}
\* texts grow character by character: one state for each text
NumSigma == <<Zero, Zero + 1, Zero + 9, Minus, Dot, A>>
Init == /\ ph = 0
        /\ CASE Fam = "rows1" -> x \in {<<r>> : r \in Rows(Len1, 1)} \cup {<<r>> : r \in Rows(2, 2)}
             [] Fam = "rows2" -> x \in {<<r, q>> : r \in Rows(1, 2), q \in Rows(1, 2)}
             [] OTHER -> x = <<>>
Alphabet == IF Fam = "numbers" THEN Range(NumSigma) ELSE Range(Sigma)
Next == /\ Fam \in {"texts", "numbers"} /\ Len(x) < Len1
        /\ \E c \in Alphabet : x' = Append(x, c)
        /\ ph' = 0
Spec == Init /\ [][Next]_vars

Eols == {<<CR, LF>>, <<CR>>, <<LF>>}
RoundTrip == Fam \in {"rows1", "rows2"} =>
  \A force \in BOOLEAN, eol \in Eols, last \in BOOLEAN :
    LET t == WriteRows(x, Sep, force, eol, last) IN Parse(t, Sep) = [rows |-> x, good |-> TRUE]
\* a well-formed text is a rendering of its rows: writing the rows and reading again gives them
Stable == Fam = "texts" =>
  LET p == Parse(x, Sep) IN
  p.good => /\ \A r \in Range(p.rows) : r # <<>> => \A i \in DOMAIN r : Len(r[i]) <= Len(x)
            /\ LET q == SelectSeq(p.rows, LAMBDA r : r # <<>>) IN
               \A eol \in Eols : Parse(WriteRows(q, Sep, FALSE, eol, TRUE), Sep) = [rows |-> q, good |-> TRUE]
\* a converted value converts to itself; smaller types accept less
Numbers == Fam = "numbers" =>
  /\ \A t \in IntTypes : Conv(t, x).ok => Conv(t, Conv(t, x).v) = Conv(t, x)
  /\ \A t \in {"i16", "i32"} : Conv(t, x).ok => Conv("i64", x) = Conv(t, x)
  /\ \A t \in {"u16", "u32"} : Conv(t, x).ok => Conv("u64", x) = Conv(t, x)
  /\ \A t \in FloatTypes : Conv(t, x).ok /\ ~Vague(t, x) => Conv(t, TextOf(t, Conv(t, x).v)) = Conv(t, x)
  /\ Conv("i64", x).ok => Conv("f64", x).ok
Inv == RoundTrip /\ Stable /\ Numbers
EmitInv == (Emit /\ Len(x) >= 0) => PrintT("TEXT " \o ToJson(x))
=============================================================================
