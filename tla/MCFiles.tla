------------------------------- MODULE MCFiles -------------------------------
(* Every way to lay out small records in lines, and the readers of Files. The *)
(* writer puts the values one by one: on the current line or on a new one,    *)
(* padded by blanks to the field width (fixed) or with any separators (free), *)
(* and comments between the lines.                                            *)
EXTENDS Files
CONSTANTS Digits, MaxWidth, MaxValues, PerLine, MaxComments
VARIABLES fmt, w, values, lines, comments
vars == <<fmt, w, values, lines, comments>>

Texts == UNION {[1..k -> Digits] : k \in 1..MaxWidth}
Pad(t, k) == [i \in 1..(k - Len(t)) |-> " "] \o t
Init == /\ fmt \in {"fixed", "free", "model"}
        /\ w = IF fmt = "fixed" THEN MaxWidth ELSE 0
        /\ values = <<>> /\ lines = <<>> /\ comments = 0

Last == lines[Len(lines)]
ValuesOnLast == IF lines = <<>> \/ Last = <<>> THEN 0
                ELSE IF Head(Last) = "!" THEN PerLine
                ELSE IF fmt = "fixed" THEN Len(Last) \div w ELSE Len(Words(Last, <<>>))
OnLine(t) == [lines EXCEPT ![Len(lines)] = Last \o t]

PutFixed == /\ fmt = "fixed" /\ Len(values) < MaxValues
            /\ \E t \in Texts :
                 /\ values' = Append(values, t)
                 /\ \/ ValuesOnLast \in 1..(PerLine - 1) /\ lines' = OnLine(Pad(t, w))
                    \/ lines' = Append(lines, Pad(t, w))
            /\ UNCHANGED <<fmt, w, comments>>
PutFree == /\ fmt = "free" /\ Len(values) < MaxValues
           /\ \E t \in Texts, lead \in {<<>>, <<" ">>}, trail \in {<<>>, <<" ">>} :
                /\ values' = Append(values, t)
                /\ \/ ValuesOnLast \in 1..(PerLine - 1) /\ lines' = OnLine(<<" ">> \o lead \o t \o trail)
                   \/ lines' = Append(lines, lead \o t \o trail)
           /\ UNCHANGED <<fmt, w, comments>>
\* a model row: two words, any separators; values are rows
PutRow == /\ fmt = "model" /\ Len(values) < MaxValues
          /\ \E a, b \in {<<d>> : d \in Digits}, sep \in {<<" ">>, <<"\t">>, <<" ", " ">>}, lead \in {<<>>, <<" ">>} :
               /\ values' = Append(values, <<a, b>>)
               /\ lines' = Append(lines, lead \o a \o sep \o b)
          /\ UNCHANGED <<fmt, w, comments>>
Comment == /\ fmt = "model" /\ comments < MaxComments
           /\ lines' = Append(lines, <<"!", " ", "x", " ", "1">>) /\ comments' = comments + 1
           /\ UNCHANGED <<fmt, w, values>>
Next == PutFixed \/ PutFree \/ PutRow \/ Comment
Spec == Init /\ [][Next]_vars

Strip(t) == SelectSeq(t, LAMBDA ch : ch # " ")
FixedRead == fmt = "fixed" => SeqMap(Fixed(lines, Len(values), w, <<>>), Strip) = values
\* a reader may ask for fewer values, and gets the first ones
FixedPrefix == fmt = "fixed" => \A k \in 0..Len(values) : SeqMap(Fixed(lines, k, w, <<>>), Strip) = SubSeq(values, 1, k)
FreeRead == fmt = "free" => Free(lines) = values
\* whatever a half-space looks like, it ends the layers: also when it could be read as the start of a layer
ModelRead == fmt = "model" =>
    \A hs \in {<<"1">>, <<" ", "2">>} : \A after \in {<<>>, <<<<"1", " ", "2">>>>} :
        Rows(Uncomment(lines \o <<hs>> \o after, "!"), 2) = values
=============================================================================
