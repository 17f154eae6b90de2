------------------------------- MODULE Asking ------------------------------
(* What a subgraph asks composition to keep: its uses of @composeDirective.*)
(* Each names one directive, with its @; together they name what is kept.  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Max
VARIABLES asked, spelling, again
\* the argument, and the directive it names ("" if it names none)
Args == << [t |-> "(name: \"@note\")", d |-> "note", bad |-> FALSE], [t |-> "(name: \"@other\")", d |-> "other", bad |-> FALSE],
           [t |-> "(name: \"@far__mark\")", d |-> "mark", bad |-> FALSE], [t |-> "(name: \"@absent\")", d |-> "absent", bad |-> FALSE],
           [t |-> "(name: \"note\")", d |-> "", bad |-> TRUE], [t |-> "(name: \"\")", d |-> "", bad |-> TRUE], [t |-> "(name: 3)", d |-> "", bad |-> TRUE],
           [t |-> "(name: note)", d |-> "", bad |-> TRUE], [t |-> "(name: [\"@note\"])", d |-> "", bad |-> TRUE], [t |-> "(name: \"note@\")", d |-> "", bad |-> TRUE],
           [t |-> "(directive: \"@note\")", d |-> "", bad |-> FALSE], [t |-> "(because: \"note\", name: \"@note\")", d |-> "note", bad |-> FALSE], [t |-> "", d |-> "", bad |-> FALSE] >>
Places == {"extension", "definition", "after"}
Spellings == {"imported", "prefixed", "renamed", "unlinked"}
\* Without federation v2 there is no @composeDirective to import: the bare name is federation's
Kept(as) == { Args[as[i].a].d : i \in DOMAIN as } \ {"", "absent"}
Refused(as) == \E i \in DOMAIN as : Args[as[i].a].bad
Init == asked = <<>> /\ spelling \in Spellings /\ again \in BOOLEAN
Ask == /\ Len(asked) < Max
       /\ \E a \in DOMAIN Args, p \in Places : asked' = Append(asked, [a |-> a, place |-> p])
       /\ UNCHANGED <<spelling, again>>
       /\ PrintT("CASE " \o ToJson([asked |-> [i \in DOMAIN asked' |-> [t |-> Args[asked'[i].a].t, place |-> asked'[i].place]], spelling |-> spelling, again |-> again,
                                   refused |-> Refused(asked'), kept |-> IF Refused(asked') THEN {} ELSE Kept(asked')]))
Next == Ask
\* asking for more never keeps less, and the order does not matter
Monotonic == \A n \in 0..Len(asked) : ~Refused(asked) => Kept(SubSeq(asked, 1, n)) \subseteq Kept(asked)
OrderDoesNotMatter == \A i \in DOMAIN asked : Kept(asked) = Kept(<<asked[i]>> \o SubSeq(asked, 1, i - 1) \o SubSeq(asked, i + 1, Len(asked)))
=============================================================================
