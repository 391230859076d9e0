------------------------------- MODULE Files -------------------------------
(***************************************************************************)
(* Record and model files.  A file is a sequence of lines, a line a         *)
(* sequence of characters.  Write* are the writers of the formats, the      *)
(* readers below are what reading means; MCFiles checks that every layout   *)
(* of every small record is read back as written.                           *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences, FiniteSets

\* ------------------------------------------------- fixed-width records (SMC)
\* count fields of w characters: line after line, fields never cross a line
RECURSIVE Fixed(_, _, _, _)
Fixed(lines, count, w, rest) ==
    IF count = 0 THEN <<>>
    ELSE IF rest = <<>> THEN Fixed(Tail(lines), count, w, Head(lines))
    ELSE LET k == IF Len(rest) < w THEN Len(rest) ELSE w IN
         <<SubSeq(rest, 1, k)>> \o Fixed(lines, count - 1, w, SubSeq(rest, k + 1, Len(rest)))

\* ---------------------------------------------------- free-format records (AT2)
\* fields separated by blanks
Blank == {" ", "\t"}
RECURSIVE Words(_, _)
Words(s, cur) == IF s = <<>> THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>)
                 ELSE IF Head(s) \in Blank THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>) \o Words(Tail(s), <<>>)
                 ELSE Words(Tail(s), Append(cur, Head(s)))
RECURSIVE Free(_)
Free(lines) == IF lines = <<>> THEN <<>> ELSE Words(Head(lines), <<>>) \o Free(Tail(lines))

\* ------------------------------------------------------ commented model files
\* lines starting with a mark are not there; rows of at least five words are
\* layers, the first shorter one is the half-space
Uncomment(lines, mark) == SelectSeq(lines, LAMBDA s : s = <<>> \/ Head(s) # mark)
RECURSIVE Rows(_, _)
Rows(lines, least) == IF lines = <<>> THEN <<>>
                      ELSE LET w == Words(Head(lines), <<>>) IN
                           IF Len(w) < least THEN <<>> ELSE <<w>> \o Rows(Tail(lines), least)

\* damping of a layer from the inverse quality (from the quality if above one)
QDamping(iq) == IF RClose(iq, 0, 0, "1e-8") THEN R(0)
                ELSE IF RLt(1, iq) THEN R("0.5") \oslash iq ELSE R("0.5") \otimes iq
Metres(km) == R(1000) \otimes km
=============================================================================
