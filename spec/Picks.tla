------------------------------- MODULE Picks ------------------------------
(* A bounded family of systems of subgraphs: a behaviour fixes one choice  *)
(* after the other (Choose), then ingests and composes the system they     *)
(* describe (Compose). TLC explores every behaviour; every composed system *)
(* is printed, to be replayed in the implementation.                       *)
EXTENDS Composition, Json
CONSTANTS Build(_), Width(_), Slots, Garnished(_)
VARIABLES pick, out

Pending == [warns |-> {}, ok |-> FALSE, errs |-> {Err("pending", "")}, types |-> {}]
Done == out # Pending

\* What does not concern the feature under study, added to every subgraph alike:
\* 1: an optional argument for each field without arguments; 2: tags and deprecations; 3: costs, scopes and policies on fields.
ArgG == ArgD("zz", Null("Int"), <<"7">>, <<D1("tag", "g")>>)
Unless(ds, more) == SelectSeq(more, LAMBDA m : m.d = "tag" \/ \A i \in DOMAIN ds : ds[i].d # m.d)
GField(f, k, k2) ==
  CASE k = 1 -> IF f.args = <<>> /\ k2 \in {"object", "interface"} THEN [f EXCEPT !.args = <<ArgG>>] ELSE f
    [] k = 2 -> [f EXCEPT !.dirs = @ \o Unless(@, <<D1("tag", "g"), D1("deprecated", "g")>>)]
    [] k = 3 -> IF k2 \in {"object", "interface"} THEN [f EXCEPT !.dirs = Unless(@, <<Cost(3), Scopes(<<"g", "h">>), Policy(<<"g">>)>>) \o @] ELSE [f EXCEPT !.dirs = @ \o Unless(@, <<Cost(3)>>)]
GVal(v, k) == IF k = 2 THEN [v EXCEPT !.dirs = @ \o Unless(@, <<D1("tag", "g"), D1("deprecated", "g")>>)] ELSE v
GType(t, k) == [t EXCEPT !.fields = [i \in DOMAIN t.fields |-> GField(t.fields[i], k, t.k)], !.vals = [i \in DOMAIN t.vals |-> GVal(t.vals[i], k)],
                         !.dirs = IF k = 2 THEN @ \o <<D1("tag", "g")>> ELSE @]
Garnish(sgs, k) == [i \in DOMAIN sgs |-> [sgs[i] EXCEPT !.types = [j \in DOMAIN sgs[i].types |-> GType(sgs[i].types[j], k)]]]

Init == pick = <<>> /\ out = Pending
Choose ==
  /\ ~Done /\ Len(pick) < Slots
  /\ \E c \in 1..Width(Len(pick) + 1) : pick' = Append(pick, c)
  /\ UNCHANGED out
ComposeAll ==
  /\ ~Done /\ Len(pick) = Slots
  /\ UNCHANGED pick
  /\ LET sgs == TLCEval(Build(pick))
         k == Garnished(pick)
         gsgs == IF k = 0 THEN sgs ELSE TLCEval(Garnish(sgs, k))
         gout == IF k = 0 THEN out' ELSE TLCEval(Compose(gsgs)) IN
     /\ out' = TLCEval(Compose(sgs))
     /\ Assert(gout.ok = out'.ok /\ gout.errs = out'.errs, <<"garnish matters", pick, gout.errs, out'.errs>>)
     /\ PrintT("CASE " \o ToJson([pick |-> pick, garnish |-> k, sgs |-> gsgs, ok |-> gout.ok, warns |-> gout.warns, errs |-> gout.errs, types |-> gout.types,
                                   api |-> IF gout.ok THEN Api(gout) ELSE {}]))
Next == Choose \/ ComposeAll

TypeNamed(n) == (CHOOSE x \in out.types : x.n = n).t
FieldNamed(n, f) == CHOOSE x \in TypeNamed(n).fields : x.n = f
HasType(n) == \E x \in out.types : x.n = n
HasField(n, f) == HasType(n) /\ \E x \in TypeNamed(n).fields : x.n = f
Opt(c, x) == IF c THEN <<x>> ELSE <<>>
Letters == <<"a", "b", "c", "d", "e">>
=============================================================================
