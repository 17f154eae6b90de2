------------------------------- MODULE Access ------------------------------
(* Required scopes and policies: alternatives of which one must be granted *)
(* in full. A subgraph states them on an element in one or more uses of    *)
(* the directive; the element of the composed graph has the alternatives   *)
(* of all uses in all subgraphs, each once and as it was written.          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxUses, Random
VARIABLES uses, dice
Scopes == <<"a", "b:c", "">>
\* an alternative: the scopes of it, in the order in which they are written
Alts == << <<>>, <<"a">>, <<"b:c">>, <<"">>, <<"a", "b:c">>, <<"b:c", "a">>, <<"a", "a">>, <<"a", "", "b:c">> >>
Kinds == <<"requiresScopes", "policy">>
Sites == <<"field", "object", "interface", "interface-field", "enum", "scalar">>
\* a use: in which subgraph, of which directive, at what site, with which alternatives
Lists == { <<a>> : a \in DOMAIN Alts } \cup { <<a, b>> : a, b \in DOMAIN Alts }
Meaning(us, k, s) == UNION { { Alts[u.alts[i]] : i \in DOMAIN u.alts } : u \in { us[j] : j \in { x \in DOMAIN us : us[x].kind = k /\ us[x].site = s } } }
Say(us) == PrintT("CASE " \o ToJson([uses |-> [j \in DOMAIN us |-> [sg |-> us[j].sg, kind |-> us[j].kind, site |-> us[j].site, alts |-> [i \in DOMAIN us[j].alts |-> Alts[us[j].alts[i]]]]],
              want |-> { [kind |-> k, site |-> s, alts |-> Meaning(us, k, s)] : k \in { us[j].kind : j \in DOMAIN us }, s \in { us[j].site : j \in DOMAIN us } }]))
Init == uses = <<>> /\ dice = <<>>
Use == /\ ~Random /\ Len(uses) < MaxUses
       /\ \E k \in DOMAIN Kinds, s \in DOMAIN Sites, l \in Lists :
            /\ uses' = Append(uses, [sg |-> 1, kind |-> Kinds[k], site |-> Sites[s], alts |-> l])
            /\ UNCHANGED dice /\ Say(uses')
Throw == /\ Random
         /\ dice' = TLCEval([k \in 1..(7 * MaxUses + 3) |-> RandomElement(0..(9999 + Len(uses)))])
         /\ LET D(k, n) == (dice'[k] % n) + 1
                one == D(7 * MaxUses + 2, 2) = 1     \* everything at one site
                n == 1 + (dice'[7 * MaxUses + 1] % MaxUses)
            IN uses' = TLCEval([j \in 1..n |-> [sg |-> D(7 * j - 6, 2), kind |-> Kinds[IF one THEN 1 + (dice'[1] % 2) ELSE D(7 * j - 5, 2)],
                          site |-> Sites[IF one THEN D(7 * MaxUses + 3, 6) ELSE D(7 * j - 4, 6)],
                          alts |-> [i \in 1..(1 + (dice'[7 * j - 3] % 3)) |-> D(7 * j - 3 + i, Len(Alts))]]])
         /\ Say(uses')
Next == Use \/ Throw
\* What a client with these grants may do, as a subgraph means it, and as the composed graph says it
Grants == SUBSET {"a", "b:c", ""}
Allows(A, g) == \E a \in A : \A i \in DOMAIN a : a[i] \in g
\* an alternative of any subgraph is enough, and nothing else is
Union == \A j \in DOMAIN uses : \A g \in Grants :
  LET M == Meaning(uses, uses[j].kind, uses[j].site) IN
  Allows(M, g) = \E i \in DOMAIN uses : uses[i].kind = uses[j].kind /\ uses[i].site = uses[j].site /\ Allows({ Alts[uses[i].alts[x]] : x \in DOMAIN uses[i].alts }, g)
=============================================================================
