----------------------------- MODULE Features -----------------------------
(* Systems that use a set of features together: every set of up to Max of  *)
(* the features named here, each a fragment of two subgraphs' schemas      *)
(* (vlib/features.py). Composing them must give a graph whose text is      *)
(* stable and well-formed.                                                 *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Names, Max
VARIABLES used
Init == used = {}
Use == \E f \in Names \ used : Cardinality(used) < Max /\ used' = used \cup {f} /\ PrintT("CASE " \o ToJson([used |-> used']))
Next == Use
Bounded == Cardinality(used) <= Max
=============================================================================
