------------------------------ MODULE Decisions ------------------------------
(* What an authorization extension decides about the elements of a query or *)
(* a response, and what the host gets to know of it.                        *)
(* The elements lie in one list, the uses of one directive after the other: *)
(* sizes[g] is the number of elements of group g.  In a response, element e *)
(* has items[e] items, which lie in one list as well; what is denied there  *)
(* is an item.  The extension walks the list or the groups, and denies what *)
(* it comes across, with a new error or with one it has pushed before.      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Phase, MaxElements, MaxSteps
VARIABLES sizes, items, steps, errors, ids, denied

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(Tail(s))
Before(s, k) == Sum(SubSeq(s, 1, k - 1))
Sizes == { s \in UNION { [1..n -> 1..MaxElements] : n \in 1..3 } : Sum(s) <= MaxElements }
N == Sum(sizes)
\* Where the k-th element of group g lies in the list (from 0); group 0 is the whole list.
Place(g, k) == IF g = 0 THEN k ELSE Before(sizes, g) + k
Ways == { <<0, k>> : k \in 0..(N - 1) } \cup { <<g, k>> \in (1..Len(sizes)) \X (0..(MaxElements - 1)) : k < sizes[g] }
\* What can be denied: elements, or their items; the number the host knows it by.
Targets ==
  IF Phase = "query" THEN { [group |-> w[1], ix |-> w[2], item |-> 0, number |-> Place(w[1], w[2])] : w \in Ways }
  ELSE { [group |-> w[1], ix |-> w[2], item |-> j, number |-> Before(items, Place(w[1], w[2]) + 1) + j] :
         <<w, j>> \in { x \in Ways \X (0..1) : x[2] < items[Place(x[1][1], x[1][2]) + 1] } }
Name(k) == "e" \o ToString(k)
Push == /\ errors' = Append(errors, Name(Len(errors)))
        /\ ids' = Append(ids, Len(errors) + 1)
        /\ steps' = Append(steps, [do |-> "push", error |-> Name(Len(errors))])
        /\ denied' = denied
Deny(t) == /\ errors' = Append(errors, Name(Len(errors)))
           /\ ids' = ids
           /\ steps' = Append(steps, [do |-> "deny", error |-> Name(Len(errors)), at |-> t])
           /\ denied' = Append(denied, <<t.number, Name(Len(errors))>>)
With(t, k) == /\ errors' = errors
              /\ ids' = ids
              /\ steps' = Append(steps, [do |-> "with", id |-> k, at |-> t])
              /\ denied' = Append(denied, <<t.number, errors[ids[k]]>>)
Say == PrintT("CASE " \o ToJson([sizes |-> sizes, items |-> items, steps |-> steps, denied |-> denied]))
Init == /\ sizes \in Sizes
        /\ items \in (IF Phase = "query" THEN { <<>> } ELSE [1..Sum(sizes) -> 0..2])
        /\ steps = <<>> /\ errors = <<>> /\ ids = <<>> /\ denied = <<>>
Next == /\ Len(steps) < MaxSteps
        /\ Push \/ (\E t \in Targets : Deny(t) \/ \E k \in 1..Len(ids) : With(t, k))
        /\ UNCHANGED <<sizes, items>>
Said == Say
\* ------------------------------------------------------------- invariants
\* Every denial is of something that exists, with an error that was pushed.
Sound == \A i \in 1..Len(denied) : /\ denied[i][1] < (IF Phase = "query" THEN N ELSE Sum(items))
                                   /\ \E k \in 1..Len(errors) : errors[k] = denied[i][2]
\* Nothing is denied that no step named, and each naming step denies one thing.
Exact == Len(denied) = Cardinality({ i \in 1..Len(steps) : steps[i].do # "push" })
\* The groups share no element and leave none out.
Partition == \A k \in 0..(N - 1) : Cardinality({ w \in Ways : w[1] # 0 /\ Place(w[1], w[2]) = k }) = 1
=============================================================================
