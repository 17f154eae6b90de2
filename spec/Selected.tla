------------------------------ MODULE Selected ------------------------------
(* A field to resolve, as it is handed to a resolver extension: the fields   *)
(* under it lie in one list, a selection set is a range of it.               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANT MaxFields
VARIABLES fs, root, said, dice

None == [from |-> 0, to |-> 0, typename |-> FALSE]
Leaf(k) == [alias |-> IF dice[k] % 3 = 0 THEN "a" \o ToString(dice[k] % 5) ELSE "", def |-> dice[k] % 9, args |-> dice[k] % 5, has |-> FALSE, set |-> None]
New(n) == [i \in 1..n |-> Leaf(2 + i)]
Leaves == { i \in 1..Len(fs) : ~fs[i].has }
\* A field without a selection gets one: its fields go to the end of the list.
Grow == LET free == SelectSeq([i \in 1..Len(fs) |-> i], LAMBDA i : ~fs[i].has)
            i == free[1 + (dice[1] % Len(free))]
            n == dice[2] % 4 IN
  fs' = [fs EXCEPT ![i].has = TRUE, ![i].set = [from |-> Len(fs), to |-> Len(fs) + n, typename |-> dice[1] % 2 = 0]] \o New(n)
RECURSIVE Tree(_)
Tree(i) == LET f == fs[i] IN
  [alias |-> f.alias, def |-> f.def, args |-> f.args, typename |-> f.set.typename,
   fields |-> [k \in 1..(f.set.to - f.set.from) |-> Tree(f.set.from + k)]]
Init == fs = <<>> /\ root = 1 /\ said = 0 /\ dice = [k \in 1..6 |-> RandomElement(1..99999)]
Start == fs' = New(1 + (dice[2] % 3)) /\ root' = 1 + (dice[1] % (1 + (dice[2] % 3)))
Next ==
  /\ IF fs # <<>> THEN PrintT("CASE " \o ToJson([fs |-> fs, root |-> root, tree |-> Tree(root)])) ELSE TRUE
  /\ IF fs = <<>> \/ Len(fs) >= MaxFields \/ Leaves = {} \/ (dice[6] % 9 = 0) THEN Start ELSE Grow /\ root' = root
  /\ said' = said + 1
  /\ dice' = TLCEval([k \in 1..6 |-> RandomElement(0..(99999 + said))])
\* ------------------------------------------------------------- invariants
\* No field is in two selection sets, and none is under itself.
Once == \A i, j \in 1..Len(fs) : i # j /\ fs[i].has /\ fs[j].has => fs[i].set.to <= fs[j].set.from \/ fs[j].set.to <= fs[i].set.from
Under == \A i \in 1..Len(fs) : fs[i].has => fs[i].set.from >= i
=============================================================================
