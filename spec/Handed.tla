------------------------------- MODULE Handed -------------------------------
(* The schema of a subgraph, as it is handed to an extension: definitions    *)
(* that refer to each other by identifiers, which are no positions.          *)
(* Identifiers are numbered here in the order of their definitions; what     *)
(* they are on the wire is chosen by the replay.                             *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANT Depth
VARIABLES types, fields, dirs, roots, next, said, dice

Kinds == <<"object", "interface", "union", "enum", "input", "scalar", "object">>
R(k, n) == 1 + (dice[k] % n)
At(s, k) == s[R(k, Len(s))]
Ids(K) == SelectSeq([i \in 1..Len(types) |-> i], LAMBDA i : types[i].kind \in K)
Wraps == << <<>>, <<"nn">>, <<"list">>, <<"nn", "list">>, <<"list", "nn">>, <<"nn", "list", "nn">>, <<"list", "list">>, <<"nn", "list", "list", "nn">>, <<"list", "nn", "list">> >>
\* A directive's arguments are chosen by the replay from the number.
Dir(k) == [name |-> At(<<"d", "e">>, k), n |-> dice[k] % 7]
Dirs(k) == CASE dice[k] % 4 = 0 -> <<Dir(k)>> [] dice[k] % 4 = 1 -> <<Dir(k), Dir(k - 1)>> [] OTHER -> <<>>
Ty(k, K) == [id |-> types[At(Ids(K), k)].id, wrap |-> At(Wraps, k - 1)]
Input(k) == [id |-> next + 1, name |-> "i" \o ToString(next), ty |-> Ty(k, {"scalar", "enum", "input"}), dirs |-> Dirs(k - 1)]
Out == {"object", "interface", "union", "enum", "scalar"}
Has(K) == Ids(K) # <<>>
AddType == LET kind == At(Kinds, 2) IN
  /\ types' = Append(types, [kind |-> kind, id |-> next, name |-> "T" \o ToString(next), dirs |-> Dirs(3), fields |-> <<>>, ifaces |-> <<>>, members |-> <<>>, values |-> <<>>, inputs |-> <<>>,
                             url |-> IF dice[4] % 2 = 0 THEN "" ELSE "http://u/" \o ToString(next)])
  /\ next' = next + 1 /\ UNCHANGED <<fields, dirs, roots>>
AddField == LET p == At(Ids({"object", "interface"}), 2) IN
  /\ fields' = Append(fields, [id |-> next, name |-> "f" \o ToString(next % 5), ty |-> Ty(3, Out), parent |-> types[p].id, dirs |-> Dirs(4),
                               args |-> IF dice[5] % 3 = 0 THEN <<Input(5)>> ELSE <<>>])
  /\ types' = [types EXCEPT ![p].fields = IF dice[4] % 2 = 0 THEN Append(@, next) ELSE <<next>> \o @]
  /\ next' = next + 2 /\ UNCHANGED <<dirs, roots>>
AddLink == LET p == At(Ids({"object", "interface"}), 2)  i == types[At(Ids({"interface"}), 3)].id IN
  /\ types' = [types EXCEPT ![p].ifaces = IF \E k \in 1..Len(@) : @[k] = i THEN @ ELSE Append(@, i)]
  /\ UNCHANGED <<fields, dirs, roots, next>>
AddMember == LET u == At(Ids({"union"}), 2)  m == types[At(Ids({"object"}), 3)].id IN
  /\ types' = [types EXCEPT ![u].members = IF \E k \in 1..Len(@) : @[k] = m THEN @ ELSE Append(@, m)]
  /\ UNCHANGED <<fields, dirs, roots, next>>
AddValue == LET e == At(Ids({"enum"}), 2) IN
  /\ types' = [types EXCEPT ![e].values = Append(@, [name |-> "V" \o ToString(Len(@)), dirs |-> Dirs(3)])]
  /\ UNCHANGED <<fields, dirs, roots, next>>
AddInput == LET i == At(Ids({"input"}), 2) IN
  /\ types' = [types EXCEPT ![i].inputs = Append(@, Input(3))]
  /\ next' = next + 2 /\ UNCHANGED <<fields, dirs, roots>>
SetRoot == LET o == types[At(Ids({"object"}), 2)].id  r == At(<<"query", "mutation", "subscription">>, 3) IN
  /\ roots' = [roots EXCEPT ![r] = o] /\ UNCHANGED <<types, fields, dirs, next>>
AddDir == dirs' = Append(dirs, Dir(2)) /\ UNCHANGED <<types, fields, roots, next>>
\* ------------------------------------------------ what the extension sees
TypeOf(id) == types[CHOOSE i \in 1..Len(types) : types[i].id = id]
FieldOf(id) == fields[CHOOSE i \in 1..Len(fields) : fields[i].id = id]
SeenTy(t) == [id |-> t.id, name |-> TypeOf(t.id).name, wrap |-> t.wrap, nn |-> t.wrap # <<>> /\ t.wrap[Len(t.wrap)] = "nn", list |-> \E i \in 1..Len(t.wrap) : t.wrap[i] = "list"]
SeenInput(i) == [i EXCEPT !.ty = SeenTy(i.ty)]
Each(s, f(_)) == [i \in 1..Len(s) |-> f(s[i])]
SeenField(f) == [id |-> f.id, name |-> f.name, ty |-> SeenTy(f.ty), dirs |-> f.dirs, parent |-> <<TypeOf(f.parent).kind, TypeOf(f.parent).name>>, args |-> Each(f.args, SeenInput)]
Ref(id) == <<id, TypeOf(id).name>>
SeenType(t) ==
  LET base == [kind |-> t.kind, id |-> t.id, name |-> t.name, dirs |-> t.dirs] IN
  CASE t.kind \in {"object", "interface"} -> base @@ [fields |-> Each(t.fields, LAMBDA i : SeenField(FieldOf(i))), ifaces |-> Each(t.ifaces, Ref)]
    [] t.kind = "union" -> base @@ [members |-> Each(t.members, Ref)]
    [] t.kind = "enum" -> base @@ [values |-> t.values]
    [] t.kind = "input" -> base @@ [inputs |-> Each(t.inputs, SeenInput)]
    [] OTHER -> base @@ [url |-> t.url]
Root(r) == IF roots[r] = 0 THEN "" ELSE TypeOf(roots[r]).name
Say == PrintT("CASE " \o ToJson([types |-> types, fields |-> fields, dirs |-> dirs, roots |-> roots,
         seen |-> [types |-> Each(types, SeenType), fields |-> Each(fields, SeenField), dirs |-> dirs, roots |-> [query |-> Root("query"), mutation |-> Root("mutation"), subscription |-> Root("subscription")]]]))
NoRoots == [query |-> 0, mutation |-> 0, subscription |-> 0]
First == <<[kind |-> "scalar", id |-> 1, name |-> "T1", dirs |-> <<>>, fields |-> <<>>, ifaces |-> <<>>, members |-> <<>>, values |-> <<>>, inputs |-> <<>>, url |-> ""]>>
Init == types = First /\ fields = <<>> /\ dirs = <<>> /\ roots = NoRoots /\ next = 2 /\ said = 0 /\ dice = [k \in 1..5 |-> RandomElement(1..99999)]
Change ==
  LET d == dice[1] % 12 IN
  CASE d < 4 -> AddType
    [] d < 7 /\ Has({"object", "interface"}) -> AddField
    [] d = 7 /\ Has({"interface"}) -> AddLink
    [] d = 8 /\ Has({"union"}) /\ Has({"object"}) -> AddMember
    [] d = 9 /\ Has({"enum"}) -> AddValue
    [] d = 10 /\ Has({"input"}) -> AddInput
    [] d = 11 /\ Has({"object"}) -> SetRoot
    [] OTHER -> IF Len(dirs) < 3 THEN AddDir ELSE AddType
Next ==
  /\ IF said % 6 = 5 THEN Say ELSE TRUE
  /\ IF said % Depth = Depth - 1 THEN types' = First /\ fields' = <<>> /\ dirs' = <<>> /\ roots' = NoRoots /\ next' = 2 ELSE Change
  /\ said' = said + 1
  /\ dice' = TLCEval([k \in 1..5 |-> RandomElement(0..(99999 + said))])
\* ------------------------------------------------------------- invariants
\* Identifiers name one definition each, and everything referred to exists.
Distinct == LET all == Each(types, LAMBDA t : t.id) \o Each(fields, LAMBDA f : f.id) IN IsInjective(all)
Closed == /\ \A i \in 1..Len(fields) : \E j \in 1..Len(types) : types[j].id = fields[i].parent /\ \E k \in 1..Len(types[j].fields) : types[j].fields[k] = fields[i].id
          /\ \A i \in 1..Len(types) : \A k \in 1..Len(types[i].ifaces) : TypeOf(types[i].ifaces[k]).kind = "interface"
=============================================================================
