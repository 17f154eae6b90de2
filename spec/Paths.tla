------------------------------- MODULE Paths ------------------------------
(* Where a configuration file is found, and where the relative paths in it *)
(* point.  Paths are sequences of components; a path is absolute or        *)
(* relative.  "." stands for nothing; ".." is kept (a link may be there).  *)
(* The file is given by name (absolute, or relative to the current         *)
(* directory) or is the grafbase.toml of the current directory; the        *)
(* current directory is that of the process or one given to the loader.    *)
EXTENDS Naturals, Sequences, SequencesExt, TLC, Json
CONSTANTS Steps
VARIABLES file, sets, dice

Root == <<"ROOT">>                      \* the (absolute) directory everything below lives in, and the process runs in
Abs(p) == [abs |-> TRUE, p |-> p]
Rel(p) == [abs |-> FALSE, p |-> p]
Plain(p) == SelectSeq(p, LAMBDA c : c # ".")
Resolve(dir, x) == IF x.abs THEN Plain(x.p) ELSE Plain(dir \o x.p)
DirOf(p) == SubSeq(p, 1, Len(p) - 1)

Dirs == << <<>>, <<"a">>, <<"a", "b">>, <<"a", "..", "b">>, <<".", "c">>, <<"d", ".">> >>
RelPaths == << <<"x.graphql">>, <<"sub", "x.graphql">>, <<"..", "x.graphql">>, <<".", "x">>, <<"s", "..", "..", "x">>, <<"..">>, <<".">>, <<"a", ".", "b">> >>
AbsPaths == << <<"ROOT", "x.graphql">>, <<"opt", "x">>, <<"ROOT", "a", "b", "..", "x">>, <<"opt", ".", "x">> >>

\* How the file is named.  cd: the given current directory (<<>> for none).
Files ==
  [how : {"named"}, at : { Abs(Root \o d \o <<"g.toml">>) : d \in Range(Dirs) } \cup { Rel(d \o <<"g.toml">>) : d \in Range(Dirs) }, cd : {<<>>} \cup { <<Abs(Root \o d)>> : d \in Range(Dirs) } \cup { <<Rel(d)>> : d \in {<<"a">>, <<"a", "b">>} }]
  \cup [how : {"default", "nothing"}, at : {Rel(<<"grafbase.toml">>)}, cd : { <<Abs(Root \o d)>> : d \in Range(Dirs) } \cup { <<Rel(d)>> : d \in {<<"a">>, <<"a", "b">>} }]
FileSeq == SetToSeq(Files)

Current(f) == IF f.cd = <<>> THEN Root ELSE Resolve(Root, f.cd[1])
Place(f) == Resolve(Current(f), f.at)
Base(f) == DirOf(Place(f))
Kinds == <<"schema", "extension", "wasm", "version", "no path", "schema", "extension">>
\* later settings of the same kind and name replace earlier ones
Put(ss, s) == Append(SelectSeq(ss, LAMBDA o : ~(o.kind = s.kind /\ o.name = s.name) /\ ~(s.kind \in {"extension", "version", "no path"} /\ o.kind \in {"extension", "version", "no path"} /\ o.name = s.name)), s)
Reading(f, ss) == [i \in DOMAIN ss |-> IF ss[i].kind \in {"version", "no path"} THEN <<>> ELSE Resolve(Base(f), ss[i].path)]

Case == [file |-> file, place |-> Place(file), sets |-> sets, read |-> Reading(file, sets)]

Dice == TLCEval([k \in 1..5 |-> RandomElement(0..(99999 + Len(sets)))])
PathOf(d) == IF d % 3 = 0 THEN Abs(AbsPaths[1 + ((d \div 3) % Len(AbsPaths))]) ELSE Rel(RelPaths[1 + ((d \div 3) % Len(RelPaths))])
NoFile == [how |-> "none", at |-> Rel(<<>>), cd |-> <<>>]
Init == file = NoFile /\ sets = <<>> /\ dice = [k \in 1..5 |-> RandomElement(1..99999)]
Next ==
  /\ dice' = Dice
  /\ IF file.how = "none" THEN file' = FileSeq[1 + (dice[1] % Len(FileSeq))] /\ sets' = <<>>
     ELSE IF Len(sets) >= 1 + (dice[1] % Steps) THEN PrintT("CASE " \o ToJson(Case)) /\ file' = NoFile /\ sets' = <<>>
     ELSE /\ file' = file
          /\ LET k == Kinds[1 + (dice[2] % Len(Kinds))] IN
             sets' = Put(sets, [kind |-> k, name |-> IF k = "wasm" THEN "w" ELSE <<"one", "two", "three">>[1 + (dice[3] % 3)],
                                path |-> IF k \in {"version", "no path"} THEN Rel(<<>>) ELSE PathOf(dice[4])])

\* every way to name the file with one setting of each kind
InitAll == file \in Files /\ sets = <<>> /\ dice = <<>>
NextAll == /\ sets = <<>>
           /\ \E k \in {"schema", "extension", "wasm"}, x \in { Rel(p) : p \in Range(RelPaths) } \cup { Abs(p) : p \in Range(AbsPaths) } :
                sets' = << [kind |-> k, name |-> IF k = "wasm" THEN "w" ELSE "one", path |-> x] >>
           /\ UNCHANGED <<file, dice>>
           /\ PrintT("CASE " \o ToJson([file |-> file, place |-> Place(file), sets |-> sets', read |-> Reading(file, sets')]))

\* ------------------------------------------------------------ invariants
Anchored == file.how # "none" =>
  /\ Place(file)[1] = "ROOT"
  /\ \A i \in DOMAIN sets : sets[i].kind \in {"schema", "extension", "wasm"} =>
       /\ sets[i].path.abs => Reading(file, sets)[i] = Plain(sets[i].path.p)
       /\ ~sets[i].path.abs => IsPrefix(Base(file), Reading(file, sets)[i])
=============================================================================
