---------------------------- MODULE Composition ----------------------------
(***************************************************************************)
(* Reference semantics of GraphQL federation as grafbase composes it:      *)
(* a sequence of abstract subgraphs -> either a set of error classes or a  *)
(* federated graph with ownership, keys, selections and merged directives, *)
(* and the client-facing (API) schema derived from that graph.             *)
(*                                                                         *)
(* A subgraph: [name, fed (1..4), types : Seq(TypeDef)]; fed: the           *)
(* specification it links: 1 federation v1 (none), 2 federation v2,        *)
(* 3 composite schemas, 4 federation v2 and composite schemas              *)
(* TypeDef   : [n, k, dirs, impl, fields, members, vals]                   *)
(* Field     : [n, t, args, dirs]    Arg (also input field): [n,t,def,dirs]*)
(* Value     : [n, dirs]             def : <<>> or <<"literal">>           *)
(* Type ref  : [b, w], w the wrappers innermost first, "L" or "N"          *)
(* Directive : [d, a : Seq(STRING), s : Seq(Sel), l : Seq(STRING), c : Nat]*)
(* Selection : [f, a (rendered arguments), s]; an inline fragment has      *)
(*             f = "... on T"                                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC

Ran(s) == { s[i] : i \in DOMAIN s }

(* ---------------------------- constructors ---------------------------- *)
NoSel == <<>>
D0(d) == [d |-> d, a |-> <<>>, s |-> <<>>, l |-> <<>>, c |-> 0]
D1(d, x) == [d |-> d, a |-> <<x>>, s |-> <<>>, l |-> <<>>, c |-> 0]
D2(d, x, y) == [d |-> d, a |-> <<x, y>>, s |-> <<>>, l |-> <<>>, c |-> 0]
DS(d, sel) == [d |-> d, a |-> <<>>, s |-> sel, l |-> <<>>, c |-> 0]
Key(sel) == [d |-> "key", a |-> <<"true">>, s |-> sel, l |-> <<>>, c |-> 0]
KeyR(sel, r) == [d |-> "key", a |-> <<r>>, s |-> sel, l |-> <<>>, c |-> 0]
Scopes(l) == [d |-> "requiresScopes", a |-> <<>>, s |-> <<>>, l |-> l, c |-> 0]
Policy(l) == [d |-> "policy", a |-> <<>>, s |-> <<>>, l |-> l, c |-> 0]
CompNames == {"lookup", "derive", "internal", "require", "is"}
Cost(n) == [d |-> "cost", a |-> <<>>, s |-> <<>>, l |-> <<>>, c |-> n]

S0(f) == [f |-> f, a |-> "", s |-> <<>>]
S1(f, sub) == [f |-> f, a |-> "", s |-> sub]
SA(f, args) == [f |-> f, a |-> args, s |-> <<>>]

T(b, w) == [b |-> b, w |-> w]
Null(b) == T(b, <<>>)
Req(b) == T(b, <<"N">>)

Arg(n, t) == [n |-> n, t |-> t, def |-> <<>>, dirs |-> <<>>]
ArgD(n, t, def, dirs) == [n |-> n, t |-> t, def |-> def, dirs |-> dirs]
F(n, t) == [n |-> n, t |-> t, args |-> <<>>, dirs |-> <<>>, def |-> <<>>]
FD(n, t, dirs) == [n |-> n, t |-> t, args |-> <<>>, dirs |-> dirs, def |-> <<>>]
FA(n, t, args, dirs) == [n |-> n, t |-> t, args |-> args, dirs |-> dirs, def |-> <<>>]
InF(n, t, def, dirs) == [n |-> n, t |-> t, args |-> <<>>, dirs |-> dirs, def |-> def]
V(n) == [n |-> n, dirs |-> <<>>]
VD(n, dirs) == [n |-> n, dirs |-> dirs]

TypeOf(k, n, dirs, impl, fields, members, vals) ==
  [n |-> n, k |-> k, dirs |-> dirs, impl |-> impl, fields |-> fields, members |-> members, vals |-> vals]
Obj(n, dirs, fields) == TypeOf("object", n, dirs, <<>>, fields, <<>>, <<>>)
ObjI(n, dirs, impl, fields) == TypeOf("object", n, dirs, impl, fields, <<>>, <<>>)
Iface(n, dirs, impl, fields) == TypeOf("interface", n, dirs, impl, fields, <<>>, <<>>)
Input(n, dirs, fields) == TypeOf("input", n, dirs, <<>>, fields, <<>>, <<>>)
Enum(n, dirs, vals) == TypeOf("enum", n, dirs, <<>>, <<>>, <<>>, vals)
Union(n, dirs, members) == TypeOf("union", n, dirs, <<>>, <<>>, members, <<>>)
Scalar(n, dirs) == TypeOf("scalar", n, dirs, <<>>, <<>>, <<>>, <<>>)
SG(name, fed, types) == [name |-> name, fed |-> fed, types |-> types]

(* ------------------------------ helpers ------------------------------- *)
Has(dirs, d) == \E i \in DOMAIN dirs : dirs[i].d = d
Sel(dirs, d) == SelectSeq(dirs, LAMBDA x : x.d = d)
ByName(seq, n) == SelectSeq(seq, LAMBDA x : x.n = n)
Names(seq) == { seq[i].n : i \in DOMAIN seq }
SetSeq(S) == SetToSeq(S)

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

(* The definition of a type in one subgraph is the sum of its definition   *)
(* and its extensions there.                                               *)
RECURSIVE SumDefs(_)
SumDefs(ds) ==
  IF Len(ds) = 1 THEN ds[1]
  ELSE LET r == SumDefs(Tail(ds)) IN
       [ds[1] EXCEPT !.dirs = @ \o r.dirs, !.impl = @ \o r.impl, !.fields = @ \o r.fields,
                     !.members = @ \o r.members, !.vals = @ \o r.vals]

RootNames == {"Query", "Mutation", "Subscription"}
BuiltinScalars == {"String", "Int", "Float", "Boolean", "ID"}

\* The directives of the composite schemas specification belong to the subgraph that writes them, if it links that
\* specification; its keys have lookup fields and no other way to be resolved.
OfGraph(g, fed, ds) == [i \in DOMAIN ds |-> IF ds[i].d \in CompNames THEN [ds[i] EXCEPT !.l = <<g>>]
                                        ELSE IF ds[i].d = "key" /\ fed = 3 THEN [ds[i] EXCEPT !.a = <<"false">>] ELSE ds[i]]
Owned(sg) ==
  IF sg.fed < 3 THEN sg
  ELSE LET own(ds) == OfGraph(sg.name, sg.fed, ds)
           arg(a) == [a EXCEPT !.dirs = own(@)]
           fld(f) == [f EXCEPT !.dirs = own(@), !.args = [k \in DOMAIN @ |-> arg(@[k])]]
       IN [sg EXCEPT !.types = [j \in DOMAIN @ |-> [@[j] EXCEPT !.dirs = own(@), !.fields = [k \in DOMAIN @ |-> fld(@[k])]]]]
IsOwned(d, n) == d.d = n /\ d.l # <<>>
OwnedDir(ds, n) == \E i \in DOMAIN ds : IsOwned(ds[i], n)

Normal(raw) ==
  LET sg == Owned(raw) IN
  LET firsts == SelectSeq([i \in DOMAIN sg.types |-> i],
                          LAMBDA i : \A j \in 1..(i-1) : sg.types[j].n # sg.types[i].n)
  IN [sg EXCEPT !.types = [k \in DOMAIN firsts |-> SumDefs(ByName(sg.types, sg.types[firsts[k]].n))]]

\* Type n of a (normalised) subgraph: a sequence of length 0 or 1.
TypesIn(sg, n) == ByName(sg.types, n)
DefIn(sg, n) == TypesIn(sg, n)[1]
Defines(sg, n) == TypesIn(sg, n) # <<>>
FieldIn(def, f) == ByName(def.fields, f)

AllTypeNames(sgs) == UNION { Names(sgs[i].types) : i \in DOMAIN sgs }
\* Definition occurrences of n, in subgraph order: <<[g, sg, d]>>
Defs(sgs, n) ==
  LET s == SelectSeq([i \in DOMAIN sgs |-> i], LAMBDA i : Defines(sgs[i], n))
  IN [k \in DOMAIN s |-> [g |-> sgs[s[k]].name, sg |-> sgs[s[k]], d |-> DefIn(sgs[s[k]], n)]]

Err(c, w) == [c |-> c, w |-> w]
E(cond, c, w) == IF cond THEN {Err(c, w)} ELSE {}

\* one system in two is garnished (see Picks), in one of three ways
RECURSIVE SumOf(_)
SumOf(p) == IF p = <<>> THEN 0 ELSE p[1] * (2 * Len(p) + 1) + SumOf(Tail(p))
ByPick(p) == LET h == (SumOf(p) * 7) % 6 IN IF h > 3 THEN 0 ELSE h

RECURSIVE FirstChar(_)
FirstChar(s) == IF s = "" THEN "" ELSE LET c == SubSeq(s, 1, 1) IN IF c \in {" ", "\n", "\t"} THEN FirstChar(SubSeq(s, 2, Len(s))) ELSE c

(* ------------------------------- types -------------------------------- *)
NonNull(t) == t.w # <<>> /\ t.w[Len(t.w)] = "N"
StripT(t) == IF NonNull(t) THEN [t EXCEPT !.w = SubSeq(@, 1, Len(@) - 1)] ELSE t
ReqT(t) == IF NonNull(t) THEN t ELSE [t EXCEPT !.w = Append(@, "N")]
\* Only the outermost nullability may differ between subgraphs.
TypesCompatible(ts) == \A i \in DOMAIN ts : StripT(ts[i]) = StripT(ts[1])
OutType(ts) == IF \A i \in DOMAIN ts : NonNull(ts[i]) THEN ts[1] ELSE StripT(ts[1])
InType(ts) == IF \E i \in DOMAIN ts : NonNull(ts[i]) THEN ReqT(ts[1]) ELSE ts[1]

RECURSIVE TypeText(_)
TypeText(t) ==
  IF t.w = <<>> THEN t.b
  ELSE LET n == Len(t.w) IN
       LET inner == [t EXCEPT !.w = SubSeq(@, 1, n - 1)] IN
       IF t.w[n] = "N" THEN TypeText(inner) \o "!" ELSE "[" \o TypeText(inner) \o "]"

(* ----------------------------- selections ----------------------------- *)
RECURSIVE SelText(_)
SelText(s) ==
  IF s = <<>> THEN ""
  ELSE LET h == s[1].f \o s[1].a \o (IF s[1].s = <<>> THEN "" ELSE " { " \o SelText(s[1].s) \o " }")
       IN IF Len(s) = 1 THEN h ELSE h \o " " \o SelText(Tail(s))

\* A selection is valid on a type of a subgraph. Built-in scalars are not
\* defined by the subgraph: nothing can be selected on them.
RECURSIVE SelOk(_, _, _)
IsFrag(x) == Len(x.f) > 3 /\ SubSeq(x.f, 1, 3) = "..."
SelOk(sg, n, s) ==
  \A i \in DOMAIN s :
    \/ s[i].f = "__typename" /\ s[i].s = <<>> /\ s[i].a = ""
    \/ /\ s[i].f # "__typename"
       /\ ~IsFrag(s[i])
       /\ Defines(sg, n)
       /\ FieldIn(DefIn(sg, n), s[i].f) # <<>>
       /\ LET fld == FieldIn(DefIn(sg, n), s[i].f)[1] IN
          s[i].s = <<>> \/ (Defines(sg, fld.t.b) /\ SelOk(sg, fld.t.b, s[i].s))
    \/ /\ IsFrag(s[i])
       /\ Len(s[i].f) > 7
       /\ LET on == SubSeq(s[i].f, 8, Len(s[i].f)) IN Defines(sg, on) /\ SelOk(sg, on, s[i].s)

\* directives, written after the arguments, are not allowed in a provided selection
RECURSIVE HasDirective(_)
HasDirective(s) == \E i \in DOMAIN s : (Len(s[i].a) > 1 /\ SubSeq(s[i].a, 1, 2) = " @") \/ HasDirective(s[i].s)

RECURSIVE TopFields(_)
\* the fields a selection names on the type itself (looking through fragments)
TopFields(s) == UNION { IF IsFrag(s[i]) THEN TopFields(s[i].s) ELSE {s[i].f} : i \in DOMAIN s }

Keys(def) == Sel(def.dirs, "key")
IsEntity(def) == Keys(def) # <<>>
PartOfKey(def, f) == \E i \in DOMAIN Keys(def) : f \in TopFields(Keys(def)[i].s)

(* ------------------------- merged directives -------------------------- *)
\* sites: sequence of directive sequences, in subgraph order
MergedDirs(sites) ==
  LET all == Flat(sites)
      depr == Sel(all, "deprecated")
      costs == { all[i].c : i \in { j \in DOMAIN all : all[j].d = "cost" } }
  IN [ tags     |-> { all[i].a[1] : i \in { j \in DOMAIN all : all[j].d = "tag" } },
       inacc    |-> Has(all, "inaccessible"),
       auth     |-> Has(all, "authenticated"),
       oneof    |-> Has(all, "oneOf"),
       depr     |-> depr # <<>>,
       reasons  |-> { IF depr[i].a = <<>> THEN "" ELSE depr[i].a[1] : i \in DOMAIN depr },
       scopes   |-> { all[i].l : i \in { j \in DOMAIN all : all[j].d = "requiresScopes" } },
       policies |-> { all[i].l : i \in { j \in DOMAIN all : all[j].d = "policy" } },
       comp     |-> { [d |-> all[i].d, g |-> all[i].l[1], f |-> IF all[i].a = <<>> THEN "" ELSE all[i].a[1]] :
                        i \in { j \in DOMAIN all : all[j].d \in CompNames /\ all[j].l # <<>> } },
       cost     |-> IF costs = {} THEN {} ELSE { CHOOSE m \in costs : \A x \in costs : x <= m } ]

(* ------------------------------- fields ------------------------------- *)
\* Occurrences of field f among definition occurrences ds: <<[g, sg, d, f]>>
FieldOccs(ds, f) ==
  LET s == SelectSeq(ds, LAMBDA x : FieldIn(x.d, f) # <<>>)
  IN [k \in DOMAIN s |-> [g |-> s[k].g, sg |-> s[k].sg, d |-> s[k].d, f |-> FieldIn(s[k].d, f)[1]]]

IsOverride(o) == Has(o.f.dirs, "override")
OvFrom(o) == Sel(o.f.dirs, "override")[1].a[1]
OvLabel(o) == LET x == Sel(o.f.dirs, "override")[1].a IN IF Len(x) > 1 THEN x[2] ELSE ""
\* a full override removes the field from the subgraph named
FullOv(o) == IsOverride(o) /\ OvLabel(o) \in {"", "percent(100)"}
MarkedExternal(o) == Has(o.f.dirs, "external") \/ Has(o.d.dirs, "external")
MarkedShareable(o) == Has(o.f.dirs, "shareable") \/ Has(o.d.dirs, "shareable")

SharingErrs(k, where, occs) ==
  IF k # "object" \/ \E i \in DOMAIN occs : MarkedShareable(occs[i]) \/ PartOfKey(occs[i].d, occs[i].f.n)
  THEN {}
  ELSE LET truth == { i \in DOMAIN occs : ~IsOverride(occs[i]) /\ ~MarkedExternal(occs[i]) /\ ~OwnedDir(occs[i].f.dirs, "internal") /\ occs[i].sg.fed # 1 }
       IN E(Cardinality(truth) >= 2, "sharing", where)

InaccessibleIn(sg, n) == Defines(sg, n) /\ Has(DefIn(sg, n).dirs, "inaccessible")

OverrideErrs(where, occs) ==
  LET ov == { i \in DOMAIN occs : IsOverride(occs[i]) } IN
  E(\E i \in ov : OvFrom(occs[i]) = occs[i].g, "override-self", where)
  \cup E(\E i, j \in ov : i < j /\ OvFrom(occs[i]) = OvFrom(occs[j]), "override-collision", where)
  \cup E(\A i \in DOMAIN occs : \E j \in ov : FullOv(occs[j]) /\ OvFrom(occs[j]) = occs[i].g, "override-cycle", where)

SelErrs(where, occs) ==
  UNION { LET o == occs[i]
              rq == Sel(o.f.dirs, "requires")
              pv == Sel(o.f.dirs, "provides") IN
     E(\E k \in DOMAIN rq : ~SelOk(o.sg, o.d.n, rq[k].s), "requires-selection", where)
     \cup E(\E k \in DOMAIN pv : ~Defines(o.sg, o.f.t.b) \/ ~SelOk(o.sg, o.f.t.b, pv[k].s) \/ HasDirective(pv[k].s), "provides-selection", where)
     \cup E(rq # <<>> /\ MarkedExternal(o), "external-requires", where)
     \cup E(pv # <<>> /\ MarkedExternal(o), "external-provides", where)
   : i \in DOMAIN occs }

(* arguments *)
ArgErrs(where, occs) ==
  LET names == UNION { Names(occs[i].f.args) : i \in DOMAIN occs } IN
  UNION { LET has == SelectSeq(occs, LAMBDA o : ByName(o.f.args, a) # <<>>)
              as  == [k \in DOMAIN has |-> ByName(has[k].f.args, a)[1]]
              defs == { as[k].def[1] : k \in { j \in DOMAIN as : as[j].def # <<>> } }
              inAll == Len(has) = Len(occs)
              w == where \o "(" \o a \o ")" IN
     E(Cardinality(defs) > 1, "arg-default", w)
     \cup E(~inAll /\ \E k \in DOMAIN as : NonNull(as[k].t), "arg-required-dropped", w)
     \cup E(inAll /\ ~TypesCompatible([k \in DOMAIN as |-> as[k].t]), "arg-type", w)
     \cup E(inAll /\ (\E k \in DOMAIN has : InaccessibleIn(has[k].sg, as[k].t.b))
                  /\ ~(\E k \in DOMAIN as : Has(as[k].dirs, "inaccessible")), "arg-inaccessible-type", w)
   : a \in names }

MergedArgs(occs) ==
  LET names == { a \in Names(occs[1].f.args) : \A i \in DOMAIN occs : ByName(occs[i].f.args, a) # <<>> } IN
  { LET as == [k \in DOMAIN occs |-> ByName(occs[k].f.args, a)[1]]
        ds == SelectSeq(as, LAMBDA x : x.def # <<>>) IN
    [ n |-> a, t |-> TypeText(InType([k \in DOMAIN as |-> as[k].t])),
      def |-> IF ds = <<>> THEN <<>> ELSE ds[1].def,
      dirs |-> MergedDirs([k \in DOMAIN as |-> as[k].dirs]) ] : a \in names }

\* An argument that requires a list of selections is given one per object: the field answers with a list of answers.
Batched(o) == \E a \in DOMAIN o.f.args : \E i \in DOMAIN o.f.args[a].dirs :
                 IsOwned(o.f.args[a].dirs[i], "require") /\ FirstChar(o.f.args[a].dirs[i].a[1]) = "["
IsList(t) == LET s == StripT(t) IN s.w # <<>> /\ s.w[Len(s.w)] = "L"
TypeOut(o) == IF Batched(o) /\ IsList(o.f.t) THEN LET s == StripT(o.f.t) IN [s EXCEPT !.w = SubSeq(@, 1, Len(@) - 1)] ELSE o.f.t

FieldErrs(k, n, occs) ==
  LET where == n \o "." \o occs[1].f.n IN
  SharingErrs(k, where, occs)
  \cup OverrideErrs(where, occs)
  \cup SelErrs(where, occs)
  \cup ArgErrs(where, occs)
  \cup E(\E i \in DOMAIN occs : Batched(occs[i]) /\ ~IsList(occs[i].f.t), "batched-not-list", where)
  \cup E(~TypesCompatible([i \in DOMAIN occs |-> TypeOut(occs[i])]), "field-type", where)
  \cup E(\E i \in DOMAIN occs : ~Has(occs[i].f.dirs, "inaccessible") /\ InaccessibleIn(occs[i].sg, occs[i].f.t.b),
         "field-inaccessible-type", where)

\* Which subgraphs the composed field is attributed to, and how.
Owners(occs, t) ==
  { LET o == occs[i]
        rq == Sel(o.f.dirs, "requires")
        pv == Sel(o.f.dirs, "provides") IN
    [ g    |-> o.g,
      ext  |-> MarkedExternal(o) /\ ~PartOfKey(o.d, o.f.n),
      req  |-> IF rq = <<>> THEN "" ELSE SelText(Flat([k \in DOMAIN rq |-> rq[k].s])),
      prov |-> IF pv = <<>> THEN "" ELSE SelText(Flat([k \in DOMAIN pv |-> pv[k].s])),
      ov   |-> IF IsOverride(o) THEN OvFrom(o) ELSE "",
      lbl  |-> IF IsOverride(o) THEN OvLabel(o) ELSE "",
      ty   |-> IF o.f.t = t THEN "" ELSE TypeText(o.f.t) ]
    : i \in { j \in DOMAIN occs : ~\E x \in DOMAIN occs : FullOv(occs[x]) /\ OvFrom(occs[x]) = occs[j].g } }

MergedField(occs) ==
  LET t == OutType([i \in DOMAIN occs |-> TypeOut(occs[i])]) IN
  [ n |-> occs[1].f.n, t |-> TypeText(t), own |-> Owners(occs, t), args |-> MergedArgs(occs),
    dirs |-> MergedDirs([i \in DOMAIN occs |-> occs[i].f.dirs]) ]

DefFieldNames(ds) == UNION { Names(ds[i].d.fields) : i \in DOMAIN ds }
NoType == [k |-> "", join |-> {}, altjoin |-> {}, impl |-> {}, fields |-> {}, members |-> {}, vals |-> {}, infields |-> {}, dirs |-> MergedDirs(<<>>)]
SiteDirs(ds) == MergedDirs([i \in DOMAIN ds |-> ds[i].d.dirs])
PlainJoin(ds) == { [g |-> ds[i].g, key |-> "", res |-> TRUE, io |-> FALSE] : i \in DOMAIN ds }
Impls(ds) == UNION { { [g |-> ds[i].g, i |-> ds[i].d.impl[k]] : k \in DOMAIN ds[i].d.impl } : i \in DOMAIN ds }

R(errs, type, extra) == [errs |-> errs, type |-> type, extra |-> extra]

(* ------------------------------- kinds -------------------------------- *)
ComposeObject(sgs, n, ds) ==
  LET names == DefFieldNames(ds)
      entity == \E i \in DOMAIN ds : IsEntity(ds[i].d)
      entOk == \A i \in DOMAIN ds : IsEntity(ds[i].d) \/ ds[i].sg.fed = 1
      typeShared == \E i \in DOMAIN ds : Has(ds[i].d.dirs, "shareable")
      hidden == { f \in names : \E i \in DOMAIN ds : FieldIn(ds[i].d, f) # <<>> /\ Has(FieldIn(ds[i].d, f)[1].dirs, "inaccessible") }
      missing == typeShared /\ \E i \in DOMAIN ds : \E f \in names \ hidden : FieldIn(ds[i].d, f) = <<>>
      fe == UNION { FieldErrs("object", n, FieldOccs(ds, f)) : f \in names }
      errs == E(entity /\ ~entOk, "entity-mismatch", n) \cup E(missing, "shareable-missing-field", n) \cup fe
  IN R(errs,
       IF errs # {} THEN NoType ELSE
       [NoType EXCEPT !.k = "object",
          !.join = IF ~entity THEN PlainJoin(ds)
                   ELSE UNION { LET ks == Keys(ds[i].d) IN
                          { [g |-> ds[i].g, key |-> SelText(ks[x].s), res |-> ks[x].a[1] = "true", io |-> FALSE] : x \in DOMAIN ks }
                          : i \in DOMAIN ds },
          !.impl = Impls(ds),
          !.fields = { MergedField(FieldOccs(ds, f)) : f \in names },
          !.dirs = SiteDirs(ds)],
       {})

ComposeRoot(sgs, n, ds) ==
  LET names == DefFieldNames(ds) \ {"_service", "_entities"}
      fe == UNION { FieldErrs("object", n, FieldOccs(ds, f)) : f \in names }
      sub == n = "Subscription" /\ \E i \in DOMAIN ds :
               Has(ds[i].d.dirs, "shareable") \/ \E x \in DOMAIN ds[i].d.fields : Has(ds[i].d.fields[x].dirs, "shareable")
      errs == fe \cup E(sub, "subscription-shareable", n)
              \cup E(n = "Query" /\ \E i \in DOMAIN ds : Has(ds[i].d.dirs, "inaccessible"), "query-inaccessible", n)
  IN R(errs,
       IF errs # {} THEN NoType ELSE
       [NoType EXCEPT !.k = "object", !.impl = Impls(ds),
          !.fields = { MergedField(FieldOccs(ds, f)) : f \in names }, !.dirs = SiteDirs(ds)],
       {})

Implementers(sgs, n) ==
  UNION { { sgs[i].types[k].n : k \in { j \in DOMAIN sgs[i].types : n \in Ran(sgs[i].types[j].impl) } } : i \in DOMAIN sgs }
ImplementersIn(sg, n) == { sg.types[k].n : k \in { j \in DOMAIN sg.types : n \in Ran(sg.types[j].impl) } }

ComposeInterface(sgs, n, ds) ==
  LET names == DefFieldNames(ds)
      fe == UNION { FieldErrs("interface", n, FieldOccs(ds, f)) : f \in names }
      shared == \E i \in DOMAIN ds : \E x \in DOMAIN ds[i].d.fields : Has(ds[i].d.fields[x].dirs, "shareable")
      unimpl == { <<o, f>> \in Implementers(sgs, n) \X names :
                    ~\E i \in DOMAIN sgs : Defines(sgs[i], o) /\ FieldIn(DefIn(sgs[i], o), f) # <<>> }
      errs == fe \cup E(shared, "interface-shareable", n) \cup E(unimpl # {}, "interface-field-missing", n)
  IN R(errs,
       IF errs # {} THEN NoType ELSE
       [NoType EXCEPT !.k = "interface", !.join = PlainJoin(ds), !.impl = Impls(ds),
          !.fields = { MergedField(FieldOccs(ds, f)) : f \in names }, !.dirs = SiteDirs(ds)],
       {})

\* An interface that is an entity: interface definitions with @key, and
\* @interfaceObject objects adding fields to all of its implementers.
IsEntityInterface(ds) ==
  \E i \in DOMAIN ds : /\ ds[i].sg.fed \in {2, 4}
                        /\ \/ ds[i].d.k = "object" /\ Has(ds[i].d.dirs, "interfaceObject")
                           \/ ds[i].d.k = "interface" /\ IsEntity(ds[i].d)

ComposeEntityInterface(sgs, n, ds) ==
  LET ifs == SelectSeq(ds, LAMBDA x : x.d.k = "interface" /\ x.sg.fed \in {2, 4})
      objs == SelectSeq(ds, LAMBDA x : x.d.k = "object")
  IN IF ifs = <<>> THEN R({Err("ei-no-interface", n)}, NoType, {})
     ELSE LET keyed == SelectSeq(ifs, LAMBDA x : IsEntity(x.d))
              main == IF keyed # <<>> THEN keyed[1] ELSE ifs[1]
              allIfs == SelectSeq(ds, LAMBDA x : x.d.k = "interface")
              joins(xs, io) == UNION { LET ks == Keys(xs[i].d) IN
                  { [g |-> xs[i].g, key |-> SelText(ks[x].s), res |-> ks[x].a[1] = "true", io |-> io] : x \in DOMAIN ks }
                  \cup IF ks = <<>> THEN PlainJoin(<<xs[i]>>) ELSE {} : i \in DOMAIN xs }
              allImpl == UNION { ImplementersIn(ifs[i].sg, n) : i \in DOMAIN ifs }
              names == DefFieldNames(ds)
              fe == UNION { FieldErrs(FieldOccs(ds, f)[1].d.k, n, FieldOccs(ds, f)) : f \in names }
              key1(d) == SelText(Keys(d)[1].s)
              keyBad == Keys(main.d) = <<>>
              expected == IF keyBad THEN "" ELSE key1(main.d)
              impls == { o \in ImplementersIn(main.sg, n) : DefIn(main.sg, o).k = "object" }
              errs == fe
                \cup E(\E i \in DOMAIN ifs : ImplementersIn(ifs[i].sg, n) # allImpl, "ei-implementers", n)
                \cup E(Len(ifs) > 1 /\ \E i \in DOMAIN ifs : Has(ifs[i].d.dirs, "interfaceObject"), "ei-on-interface", n)
                \cup E(keyBad, "ei-no-key", n)
                \cup E(\E i \in DOMAIN objs : ~Has(objs[i].d.dirs, "interfaceObject"), "ei-not-interface-object", n)
                \cup E(~keyBad /\ \E i \in DOMAIN objs : Keys(objs[i].d) = <<>> \/ key1(objs[i].d) # expected, "ei-key-mismatch", n)
                \cup E(~keyBad /\ \E o \in impls : Keys(DefIn(main.sg, o)) = <<>> \/ key1(DefIn(main.sg, o)) # expected, "ei-implementer-key", n)
          IN R(errs,
               IF errs # {} THEN NoType ELSE
               [NoType EXCEPT !.k = "interface",
                  !.join = joins(allIfs, FALSE) \cup joins(objs, TRUE),
                  \* what is composed instead (see known-findings.txt): only the first of several interfaces
                  !.altjoin = joins(<<main>>, FALSE) \cup joins(objs, TRUE),
                  !.impl = Impls(ds),
                  !.fields = { MergedField(FieldOccs(ds, f)) : f \in names }, !.dirs = SiteDirs(ds)],
               IF errs # {} THEN {} ELSE
               { [o |-> o, f |-> [MergedField(FieldOccs(ds, f)) EXCEPT !.own = {}, !.dirs = MergedDirs(<<>>)]]
                 : <<o, f>> \in { <<o2, f2>> \in impls \X names : FieldIn(DefIn(main.sg, o2), f2) = <<>> } })

ComposeInput(sgs, n, ds) ==
  LET all == DefFieldNames(ds)
      common == { f \in all : \A i \in DOMAIN ds : FieldIn(ds[i].d, f) # <<>> }
      fs(f) == LET o == FieldOccs(ds, f) IN [k \in DOMAIN o |-> o[k].f]
      errs == UNION { LET x == fs(f)
                          defs == { x[k].def[1] : k \in { j \in DOMAIN x : x[j].def # <<>> } } IN
                 E(f \notin common /\ \E k \in DOMAIN x : NonNull(x[k].t), "input-required-dropped", n \o "." \o f)
                 \cup E(f \in common /\ ~TypesCompatible([k \in DOMAIN x |-> x[k].t]), "input-type", n \o "." \o f)
                 \cup E(f \in common /\ Cardinality(defs) > 1, "input-default", n \o "." \o f)
                 : f \in all }
  IN R(errs,
       IF errs # {} THEN NoType ELSE
       [NoType EXCEPT !.k = "input", !.join = PlainJoin(ds), !.dirs = SiteDirs(ds),
          !.infields = { LET x == fs(f)
                             t == InType([k \in DOMAIN x |-> x[k].t])
                             dd == SelectSeq(x, LAMBDA y : y.def # <<>>) IN
             [ n |-> f, t |-> TypeText(t), def |-> IF dd = <<>> THEN <<>> ELSE dd[1].def,
               own |-> { [g |-> ds[i].g, ty |-> IF FieldIn(ds[i].d, f)[1].t = t THEN "" ELSE TypeText(FieldIn(ds[i].d, f)[1].t)] : i \in DOMAIN ds },
               dirs |-> MergedDirs([k \in DOMAIN x |-> x[k].dirs]) ] : f \in common }],
       {})

UsedAsInput(sgs, e) ==
  \E i \in DOMAIN sgs : \E j \in DOMAIN sgs[i].types : LET d == sgs[i].types[j] IN
    \E x \in DOMAIN d.fields :
       \/ d.k = "input" /\ d.fields[x].t.b = e
       \/ d.k \in {"object", "interface"} /\ \E a \in DOMAIN d.fields[x].args : d.fields[x].args[a].t.b = e
UsedAsOutput(sgs, e) ==
  \E i \in DOMAIN sgs : \E j \in DOMAIN sgs[i].types : LET d == sgs[i].types[j] IN
    d.k \in {"object", "interface"} /\ \E x \in DOMAIN d.fields : d.fields[x].t.b = e

ComposeEnum(sgs, n, ds) ==
  LET all == UNION { Names(ds[i].d.vals) : i \in DOMAIN ds }
      common == { v \in all : \A i \in DOMAIN ds : v \in Names(ds[i].d.vals) }
      asIn == UsedAsInput(sgs, n)
      asOut == UsedAsOutput(sgs, n)
      keep == IF asIn /\ ~asOut THEN common ELSE all
      errs == E(asIn /\ ~asOut /\ common = {}, "enum-empty", n)
              \cup E(asIn /\ asOut /\ common # all, "enum-mismatch", n)
  IN R(errs,
       IF errs # {} THEN NoType ELSE
       [NoType EXCEPT !.k = "enum", !.join = PlainJoin(ds), !.dirs = SiteDirs(ds),
          !.vals = { LET who == SelectSeq(ds, LAMBDA x : v \in Names(x.d.vals)) IN
             [ n |-> v, own |-> { who[k].g : k \in DOMAIN who },
               dirs |-> MergedDirs([k \in DOMAIN who |-> ByName(who[k].d.vals, v)[1].dirs]) ] : v \in keep }],
       {})

ComposeUnion(sgs, n, ds) ==
  R({}, [NoType EXCEPT !.k = "union", !.dirs = SiteDirs(ds),
          !.members = UNION { { [g |-> ds[i].g, m |-> ds[i].d.members[k]] : k \in DOMAIN ds[i].d.members } : i \in DOMAIN ds }],
    {})

ComposeScalar(sgs, n, ds) == R({}, [NoType EXCEPT !.k = "scalar", !.dirs = SiteDirs(ds)], {})

(* ------------------------------ the whole ----------------------------- *)
ComposeType(sgs, n) ==
  LET ds == Defs(sgs, n) IN
  IF n \in RootNames THEN ComposeRoot(sgs, n, ds)
  ELSE IF n = "join__Graph" THEN R({Err("reserved-name", n)}, NoType, {})
  ELSE IF /\ \E i \in DOMAIN ds : ds[i].d.k # ds[1].d.k
          /\ ~(IsEntityInterface(ds) /\ \A i \in DOMAIN ds : ds[i].d.k \in {"interface", "object"})
       THEN R({Err("kind-mismatch", n)}, NoType, {})
  ELSE IF IsEntityInterface(ds) THEN ComposeEntityInterface(sgs, n, ds)
  ELSE CASE ds[1].d.k = "object" -> ComposeObject(sgs, n, ds)
         [] ds[1].d.k = "interface" -> ComposeInterface(sgs, n, ds)
         [] ds[1].d.k = "input" -> ComposeInput(sgs, n, ds)
         [] ds[1].d.k = "enum" -> ComposeEnum(sgs, n, ds)
         [] ds[1].d.k = "union" -> ComposeUnion(sgs, n, ds)
         [] ds[1].d.k = "scalar" -> ComposeScalar(sgs, n, ds)

KeyErrs(sgs) ==
  UNION { UNION { LET d == sgs[i].types[j] IN
      E(\E k \in DOMAIN Keys(d) : ~SelOk(sgs[i], d.n, Keys(d)[k].s), "key-selection", d.n)
    : j \in DOMAIN sgs[i].types } : i \in DOMAIN sgs }

GlobalErrs(sgs) ==
  E(~\E n \in RootNames : \E i \in DOMAIN sgs : Defines(sgs[i], n), "no-root", "")

Compose(raw) ==
  LET sgs == [i \in DOMAIN raw |-> Normal(raw[i])]
      names == AllTypeNames(sgs)
      rs == [n \in names |-> ComposeType(sgs, n)]
      errs == UNION { rs[n].errs : n \in names } \cup KeyErrs(sgs) \cup GlobalErrs(sgs)
      extra(n) == { x.f : x \in UNION { { e \in rs[m].extra : e.o = n } : m \in names } }
      lookups == UNION { UNION { { [g |-> sgs[i].name, f |-> sgs[i].types[j].n \o "." \o sgs[i].types[j].fields[k].n] :
                     k \in { x \in DOMAIN sgs[i].types[j].fields : LET f == sgs[i].types[j].fields[x] IN NonNull(f.t) /\ OwnedDir(f.dirs, "lookup") } }
                   : j \in { x \in DOMAIN sgs[i].types : sgs[i].types[x].k \in {"object", "interface"} } } : i \in DOMAIN sgs }
  IN [ ok |-> errs = {}, errs |-> errs, warns |-> lookups,
       types |-> IF errs # {} THEN {} ELSE
         { LET t == rs[n].type
               known == { f.n : f \in t.fields }
               more == { f \in extra(n) : f.n \notin known } IN
           [n |-> n, t |-> [t EXCEPT !.fields = @ \cup more]] : n \in names } ]

(* --------------------------- the API schema --------------------------- *)
\* What a client may see of the composed graph.
ApiArgs(args) == { [n |-> a.n, t |-> a.t, def |-> a.def, depr |-> a.dirs.depr] :
                   a \in { x \in args : ~x.dirs.inacc /\ ~\E c \in x.dirs.comp : c.d = "require" } }
\* hidden as internal: internal in all of the subgraphs that it comes from
Internal(dirs, from) == LET in == { c.g : c \in { x \in dirs.comp : x.d = "internal" } } IN in # {} /\ from \subseteq in
ShownFields(S) == { y \in S : ~y.dirs.inacc /\ ~Internal(y.dirs, { o.g : o \in y.own }) }
HiddenType(t) == t.dirs.inacc \/ Internal(t.dirs, { j.g : j \in t.join })
Shown(S) == { y \in S : ~y.dirs.inacc }
\* A type is part of the API if it is not inaccessible and has a visible member.
VisibleObject(g, n) == \E x \in g.types : x.n = n /\ ~HiddenType(x.t) /\ ShownFields(x.t.fields) # {}
VisibleMembers(g, t) == { m.m : m \in { y \in t.members : VisibleObject(g, y.m) } }
InApi(g, x) ==
  /\ ~HiddenType(x.t)
  /\ CASE x.t.k \in {"object", "interface"} -> ShownFields(x.t.fields) # {}
       [] x.t.k = "input" -> Shown(x.t.infields) # {}
       [] x.t.k = "enum" -> Shown(x.t.vals) # {}
       [] x.t.k = "union" -> VisibleMembers(g, x.t) # {}
       [] OTHER -> TRUE
Api(g) ==
  { [ n |-> x.n, k |-> x.t.k, depr |-> x.t.dirs.depr,
      fields |-> { [n |-> f.n, t |-> f.t, args |-> ApiArgs(f.args), depr |-> f.dirs.depr] : f \in ShownFields(x.t.fields) },
      infields |-> ApiArgs(x.t.infields),
      vals |-> { [n |-> v.n, depr |-> v.dirs.depr] : v \in Shown(x.t.vals) },
      members |-> VisibleMembers(g, x.t),
      impl |-> { m.i : m \in { j \in x.t.impl : \E y \in g.types : y.n = j.i /\ InApi(g, y) } } ]
    : x \in { y \in g.types : InApi(g, y) } }
=============================================================================
