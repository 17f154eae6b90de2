------------------------------ MODULE MC_Names ----------------------------
(* Names of subgraphs: a letter, then letters, digits and dashes; and no   *)
(* two subgraphs whose names differ in case only. Count texts of up        *)
(* to NameLen characters is added one character at a time.                 *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Chars, NameLen, Count
VARIABLES names
Letters == {"a", "A", "b", "Z"}
NameOk(n) == n # <<>> /\ n[1] \in Letters /\ \A i \in DOMAIN n : n[i] \in Letters \cup {"1", "-"}
Lower(n) == [i \in DOMAIN n |-> IF n[i] = "A" THEN "a" ELSE IF n[i] = "Z" THEN "z" ELSE n[i]]
Ok(ns) == (\A i \in DOMAIN ns : NameOk(ns[i])) /\ \A i, j \in DOMAIN ns : i # j => Lower(ns[i]) # Lower(ns[j])
Say(ns) == PrintT("CASE " \o ToJson([names |-> ns, ok |-> Ok(ns)]))
Init == names = [i \in 1..Count |-> <<>>]
Next == \E i \in 1..Count, c \in Chars :
          /\ Len(names[i]) < NameLen /\ \A j \in (i + 1)..Count : names[j] = <<>>
          /\ names' = [names EXCEPT ![i] = Append(@, c)]
          /\ Say(names')
Symmetric == Ok(names) = Ok([i \in 1..Count |-> names[Count + 1 - i]])
=============================================================================
