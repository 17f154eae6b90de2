------------------------------ MODULE Contract ------------------------------
(* A contract: what a contracts extension decides about the uses of its      *)
(* directives, the subgraphs it moves, and what of it reaches the host.      *)
(* One number per directive: 0 to 127 for accessible, -1 to -128 for not;    *)
(* its priority grows with its distance from the middle.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, MaxSteps
VARIABLES default, acc, hide, moved, steps

Values == {-128, -127, -3, -2, -1, 0, 1, 2, 126, 127}
Names == {"a", "b"}
Accessible(v) == v >= 0
Priority(v) == IF v >= 0 THEN v + 1 ELSE -v
Lowest(yes) == IF yes THEN 1 ELSE -2
Highest(yes) == IF yes THEN 127 ELSE -128
Untouched(yes) == IF yes THEN 0 ELSE -1
Step(r) == steps' = Append(steps, r)
Set(d, v) == acc' = [acc EXCEPT ![d] = v]
Next ==
  /\ Len(steps) < MaxSteps
  /\ default' = default
  /\ \/ \E d \in 1..N, y \in BOOLEAN : Step([do |-> "lowest", at |-> d, yes |-> y]) /\ Set(d, Lowest(y)) /\ UNCHANGED <<hide, moved>>
     \/ \E d \in 1..N, y \in BOOLEAN : Step([do |-> "override", at |-> d, yes |-> y]) /\ Set(d, Highest(y)) /\ UNCHANGED <<hide, moved>>
     \/ \E d \in 1..N, v \in Values : Step([do |-> "priority", at |-> d, value |-> v]) /\ Set(d, v) /\ UNCHANGED <<hide, moved>>
     \/ \E y \in BOOLEAN : Step([do |-> "hide", yes |-> y]) /\ hide' = y /\ UNCHANGED <<acc, moved>>
     \/ \E n \in Names \ { moved[i] : i \in 1..Len(moved) } : Step([do |-> "move", name |-> n]) /\ moved' = Append(moved, n) /\ UNCHANGED <<acc, hide>>
Init == default \in BOOLEAN /\ acc = [d \in 1..N |-> Untouched(default)] /\ hide = TRUE /\ moved = <<>> /\ steps = <<>>
Said == PrintT("CASE " \o ToJson([default |-> default, acc |-> acc, hide |-> hide, moved |-> moved, steps |-> steps]))
\* ------------------------------------------------------------- invariants
\* An element with the directives D is accessible by the decision with the highest priority.
Tops(D) == { d \in D : \A e \in D : Priority(acc[e]) <= Priority(acc[d]) }
Last(d) == IF \E i \in 1..Len(steps) : steps[i].do \in {"lowest", "override", "priority"} /\ steps[i].at = d
           THEN LET i == CHOOSE i \in 1..Len(steps) : /\ steps[i].do \in {"lowest", "override", "priority"} /\ steps[i].at = d
                                                      /\ \A j \in (i + 1)..Len(steps) : ~(steps[j].do \in {"lowest", "override", "priority"} /\ steps[j].at = d) IN steps[i]
           ELSE [do |-> "none"]
\* What was overridden decides next to anything with another priority.
Overriding == \A d \in 1..N : Last(d).do = "override" =>
  /\ Accessible(acc[d]) = Last(d).yes
  /\ \A e \in 1..N : d \in Tops({d, e})
\* The least decision still decides over directives nothing was decided about.
AboveDefault == \A d, e \in 1..N : Last(d).do = "lowest" /\ Last(e).do = "none" => Tops({d, e}) = {d} /\ Accessible(acc[d]) = Last(d).yes
ByDefault == \A d \in 1..N : Last(d).do = "none" => Accessible(acc[d]) = default
=============================================================================
