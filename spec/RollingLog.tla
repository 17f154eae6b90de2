------------------------------ MODULE RollingLog ---------------------------
(* The rolling access log.  Lines go to the current file; a file that has   *)
(* reached its size limit, or has been written to for a whole period, is    *)
(* archived before the next line.  The environment advances the clock,      *)
(* restarts the process, makes a system call fail or take only some of the  *)
(* bytes, and kills the process inside one.                                 *)
(* `Outcomes` is what each operation may do, as a relation: it says nothing *)
(* about how.  `Do` is the straightforward design, used to steer histories  *)
(* towards the thresholds; every step of it must be an outcome.             *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS Steps, Timed
VARIABLES st, now, back, hist, dice, accepted

\* a time is [s, ms]
Earlier(a, b) == a.s < b.s \/ (a.s = b.s /\ a.ms < b.ms)
Plus(t, s, ms) == LET m == t.ms + ms IN
  IF m >= 1000 THEN [s |-> t.s + s + 1, ms |-> m - 1000] ELSE IF m < 0 THEN [s |-> t.s + s - 1, ms |-> m + 1000] ELSE [s |-> t.s + s, ms |-> m]
Period == [minutely |-> 60, hourly |-> 3600, daily |-> 86400, weekly |-> 604800, monthly |-> 2592000, yearly |-> 31536000]
Kinds == <<"size", "size", "size", "never", "minutely", "hourly", "daily", "weekly", "monthly", "yearly">>

\* a file is a sequence of pieces [id, n]; adjacent pieces of a line are one
Append1(f, id, n) ==
  IF n = 0 THEN f
  ELSE IF f # <<>> /\ f[Len(f)].id = id THEN [f EXCEPT ![Len(f)].n = @ + n]
  ELSE Append(f, [id |-> id, n |-> n])
SizeOf(f) == FoldLeft(LAMBDA a, p : a + p.n, 0, f)

\* the logger: up?, its strategy, when its file was started, the current file (<<>> if there is none, else <<file>>),
\* the archived files in the order of their names
Closed == [up |-> FALSE, kind |-> "never", limit |-> 0, start |-> [s |-> 0, ms |-> 0], cur |-> <<>>, arch |-> <<>>]
Current(s) == IF s.cur = <<>> THEN <<>> ELSE s.cur[1]
Due(s, t) ==
  CASE s.kind = "never" -> FALSE
    [] s.kind = "size" -> s.cur # <<>> /\ SizeOf(s.cur[1]) >= s.limit
    [] OTHER -> ~Earlier(t, Plus(s.start, Period[s.kind], 0))
Put(s, id, n) == [s EXCEPT !.cur = <<Append1(Current(s), id, n)>>]
\* the current file archived as the x-th of the archive, and no current file
Gone(s, t, x) == [s EXCEPT !.arch = SubSeq(@, 1, x - 1) \o <<s.cur[1]>> \o SubSeq(@, x, Len(@)), !.cur = <<>>, !.start = t]
Fresh(s) == [s EXCEPT !.cur = <<Current(s)>>]
\* archived files sort by name in the order of rotation as long as the clock has never gone back
Places(s, b) == IF b THEN 1..(Len(s.arch) + 1) ELSE {Len(s.arch) + 1}
Rotations(s, t, b) == IF s.cur = <<>> THEN {[s EXCEPT !.start = t]} ELSE { Gone(s, t, x) : x \in Places(s, b) }

\* before a line is written: archived if due, and only then
Ready(s, t, b) ==
  (IF Due(s, t) \/ ~Timed THEN { Fresh(r) : r \in Rotations(s, t, b) } ELSE {}) \cup (IF Due(s, t) /\ Timed THEN {} ELSE {Fresh(s)})
\* under a fault before the line is written, whether or not archived, with or without a current file
Broken(s, t, b) == {s, Fresh(s)} \cup (IF Due(s, t) \/ ~Timed THEN UNION { {r, Fresh(r)} : r \in Rotations(s, t, b) } ELSE {})

\* e: [do, id, n, once, taken, fault: [at, how, n], kind, limit, result]; result is "ok", "error" or "died".
\* A write hands over all its bytes (again and again, until they are taken), or once only: then so many are taken.
Outcomes(s, t, b, e) ==
  CASE e.do = "clock" -> {s}
    [] e.do = "flush" -> {s}
    [] e.do = "close" -> {[s EXCEPT !.up = FALSE]}
    [] e.do = "place" -> {[s EXCEPT !.cur = <<Append1(<<>>, e.id, e.n)>>]}
    [] e.do = "open" ->
        LET o == [s EXCEPT !.up = TRUE, !.kind = e.kind, !.limit = e.limit, !.start = t] IN
        CASE e.result = "ok" -> {Fresh(o)}
          [] e.result = "error" -> IF e.fault.how = "fail" THEN {s, Fresh(s)} ELSE {}
          [] OTHER -> {s, Fresh(s)}
    [] e.do = "write" ->
        CASE e.result = "ok" /\ e.once -> { Put(r, e.id, e.taken) : r \in (IF e.taken \in 1..e.n THEN Ready(s, t, b) \cup (IF e.fault.how = "fail" THEN Broken(s, t, b) ELSE {}) ELSE {}) }
          [] e.result = "ok" ->
               { Put(r, e.id, e.n) : r \in Ready(s, t, b) }
               \cup (IF e.fault.how = "short" /\ e.fault.n < e.n
                     THEN UNION { { Put(q, e.id, e.n - e.fault.n) : q \in Ready(Put(r, e.id, e.fault.n), t, b) } : r \in Ready(s, t, b) } ELSE {})
               \cup (IF e.fault.how = "fail" THEN { Put(r, e.id, e.n) : r \in Broken(s, t, b) } ELSE {})
          [] e.result = "error" -> IF e.fault.how = "fail" THEN Broken(s, t, b) ELSE {}
          [] OTHER -> UNION { { [(IF j = 0 THEN r ELSE Put(r, e.id, j)) EXCEPT !.up = FALSE] : j \in 0..(IF e.fault.at = "write" THEN e.fault.n ELSE 0) } : r \in Broken(s, t, b) }

\* ------------------------------------------------------------ the design
Rotate(s, t) == IF Due(s, t) THEN Fresh(CHOOSE r \in Rotations(s, t, FALSE) : TRUE) ELSE Fresh(s)
Reached(s, t, e) == \/ e.fault.at = "write" /\ e.do = "write"
                    \/ e.fault.at = "open" /\ (e.do = "open" \/ (e.do = "write" /\ Due(s, t)))
                    \/ e.fault.at = "rename" /\ e.do = "write" /\ Due(s, t)
\* what the operation is answered with
Answer(s, t, e) == IF ~Reached(s, t, e) \/ e.fault.how \in {"short", "tear"} THEN "ok" ELSE IF e.fault.how = "fail" THEN "error" ELSE "died"
Do(s, t, e) ==
  LET a == Answer(s, t, e) IN
  CASE e.do \in {"clock", "flush", "close", "place"} -> CHOOSE o \in Outcomes(s, t, FALSE, e) : TRUE
    [] e.do = "open" -> IF a = "ok" THEN Fresh([s EXCEPT !.up = TRUE, !.kind = e.kind, !.limit = e.limit, !.start = t]) ELSE s
    [] e.do = "write" ->
        CASE a = "ok" /\ Reached(s, t, e) -> LET k == IF e.fault.n < e.n THEN e.fault.n ELSE e.n
                                                 m == Put(Rotate(s, t), e.id, k) IN
                                             IF k = e.n \/ e.once THEN m ELSE Put(Rotate(m, t), e.id, e.n - k)
          [] a = "ok" -> Put(Rotate(s, t), e.id, e.n)
          [] a = "error" /\ e.fault.at = "write" -> Rotate(s, t)
          [] a = "error" -> s
          [] e.fault.at = "write" -> [(IF e.fault.n = 0 THEN Rotate(s, t) ELSE Put(Rotate(s, t), e.id, IF e.fault.n < e.n THEN e.fault.n ELSE e.n)) EXCEPT !.up = FALSE]
          [] OTHER -> [s EXCEPT !.up = FALSE]
Taken(s, t, e) == IF e.do = "place" THEN e.n ELSE IF e.do # "write" THEN 0 ELSE
  LET a == Answer(s, t, e)
      k == IF e.fault.n < e.n THEN e.fault.n ELSE e.n IN IF a = "ok" THEN (IF e.once /\ Reached(s, t, e) THEN k ELSE e.n) ELSE IF a = "died" /\ e.fault.at = "write" THEN (IF e.fault.n < e.n THEN e.fault.n ELSE e.n) ELSE 0

\* ------------------------------------------------------------ histories
NoFault == [at |-> "", how |-> "", n |-> 0]
Op(d) == [do |-> d, id |-> 0, n |-> 0, once |-> FALSE, taken |-> 0, fault |-> NoFault, kind |-> "never", limit |-> 0]
\* which call fails, and how
Faults == << [at |-> "write", how |-> "fail", n |-> 0], [at |-> "write", how |-> "short", n |-> 1], [at |-> "write", how |-> "short", n |-> 2], [at |-> "write", how |-> "die", n |-> 0],
             [at |-> "write", how |-> "die", n |-> 1], [at |-> "rename", how |-> "fail", n |-> 0], [at |-> "rename", how |-> "die", n |-> 0], [at |-> "rename", how |-> "die", n |-> 1],
             [at |-> "open", how |-> "fail", n |-> 0], [at |-> "open", how |-> "die", n |-> 0], [at |-> "open", how |-> "die", n |-> 1] >>
\* only some bytes are taken, and then nothing any more: a single write has to say so, not to fail
Tear(k) == [at |-> "write", how |-> "tear", n |-> k]
MaxLines == 50
NextId == Cardinality({ i \in DOMAIN hist : hist[i].do \in {"write", "place"} }) + 1
Limits == <<1, 2, 3, 5, 9>>
Opening(dc) == [Op("open") EXCEPT !.kind = Kinds[1 + (dc[2] % 10)], !.limit = Limits[1 + (dc[3] % 5)],
                                  !.fault = IF dc[5] % 12 = 0 THEN Faults[9 + (dc[4] % 3)] ELSE NoFault]
Writing(dc) == [Op("write") EXCEPT !.id = NextId, !.n = 1 + (dc[2] % 6), !.once = (dc[3] % 4) = 0,
                                   !.fault = IF (dc[3] % 16) = 0 THEN Tear(1 + (dc[4] % 3)) ELSE IF dc[5] % 6 = 0 THEN Faults[1 + (dc[4] % 11)] ELSE NoFault]
\* the clock is set: a little on, around the threshold, or back
Clock(dc) ==
  LET p == IF st.kind \in DOMAIN Period THEN Period[st.kind] ELSE 60
      end == Plus(st.start, p, 0) IN
  CASE dc[2] % 9 = 0 -> Plus(now, 0, 1)
    [] dc[2] % 9 = 1 -> Plus(now, 0, 500)
    [] dc[2] % 9 = 2 -> Plus(now, p - 1, 999)
    [] dc[2] % 9 = 3 -> Plus(end, 0, -1)
    [] dc[2] % 9 = 4 -> end
    [] dc[2] % 9 = 5 -> Plus(end, 0, 1)
    [] dc[2] % 9 = 6 -> Plus(now, p, 0)
    [] dc[2] % 9 = 7 -> IF dc[3] % 8 = 0 /\ now.s > 60 THEN Plus(now, -60, 0) ELSE Plus(now, p \div 2, 0)
    [] OTHER -> IF dc[3] % 10 = 0 THEN Plus(now, 0, -1) ELSE Plus(now, 1, 0)
Ok(t) == t.s >= 0 /\ t.s < 300000000
Choice(dc) ==
  IF ~st.up THEN (IF dc[1] % 8 = 0 /\ st.cur = <<>> /\ NextId <= MaxLines THEN [Op("place") EXCEPT !.id = NextId, !.n = 1 + (dc[2] % 12)]
                  ELSE IF dc[1] % 8 = 1 THEN Op("clock") ELSE Opening(dc))
  ELSE CASE dc[1] % 12 = 0 -> Op("close")
         [] dc[1] % 12 \in {1, 2, 3} -> Op("clock")
         [] dc[1] % 24 = 4 -> Op("flush")
         [] OTHER -> IF NextId <= MaxLines THEN Writing(dc) ELSE Op("flush")
Dice == TLCEval([k \in 1..5 |-> RandomElement(0..(99999 + Len(hist)))])
Begin == [s |-> 1000, ms |-> 0]
Init == st = Closed /\ now = Begin /\ back = FALSE /\ hist = <<>> /\ accepted = <<>> /\ dice = [k \in 1..5 |-> RandomElement(1..99999)]
Reset == st' = Closed /\ now' = Begin /\ back' = FALSE /\ hist' = <<>> /\ accepted' = <<>>
Stamp(e, t) == [e EXCEPT !.taken = Taken(st, t, e)] @@ [s |-> t.s, ms |-> t.ms]
Next == /\ IF Len(hist) >= Steps THEN Reset
           ELSE LET e == Choice(dice)
                    c == Clock(dice)
                    t == IF e.do = "clock" /\ Ok(c) THEN c ELSE now IN
                /\ now' = t
                /\ back' = (back \/ Earlier(t, now))
                /\ st' = Do(st, t, e)
                /\ hist' = Append(hist, Stamp(e, t))
                /\ accepted' = Append1(accepted, e.id, Taken(st, t, e))
                /\ Len(hist') = Steps => PrintT("CASE " \o ToJson(hist'))
        /\ dice' = Dice

\* every history of a few operations, sizes only
Alphabet == { [Op("open") EXCEPT !.kind = "size", !.limit = 2, !.fault = f] : f \in {NoFault, Faults[9]} } \cup {[Op("open") EXCEPT !.kind = "minutely"], Op("close"), Op("clock")}
            \cup { [Op("write") EXCEPT !.id = NextId, !.n = n, !.fault = f] : n \in {1, 2}, f \in {NoFault} \cup Range(Faults) }
            \cup { [Op("write") EXCEPT !.id = NextId, !.n = 2, !.once = TRUE, !.fault = f] : f \in {Tear(1), Faults[2]} }
Enabled(e) == IF e.do = "open" THEN ~st.up ELSE IF e.do = "clock" THEN TRUE ELSE st.up
NextAll == /\ Len(hist) < Steps
           /\ \E e \in { x \in Alphabet : Enabled(x) } :
                LET t == IF e.do = "clock" THEN (IF hist # <<>> /\ hist[Len(hist)].do = "clock" THEN Plus(now, -60, 0) ELSE Plus(now, 59, 999)) ELSE Plus(now, 0, 0) IN
                /\ now' = t
                /\ back' = (back \/ Earlier(t, now))
                /\ st' = Do(st, t, e)
                /\ hist' = Append(hist, Stamp(e, t))
                /\ accepted' = Append1(accepted, e.id, Taken(st, t, e))
                /\ Len(hist') = Steps => PrintT("CASE " \o ToJson(hist'))
           /\ UNCHANGED dice

\* ------------------------------------------------------------ properties of the design
\* nothing accepted is lost, repeated, reordered or invented
Files == FoldLeft(LAMBDA a, f : FoldLeft(LAMBDA b, p : Append1(b, p.id, p.n), a, f), <<>>, st.arch \o st.cur)
NoLoss == Files = accepted
\* an archived file had reached its limit when it was archived; the current one was below it before its last line
Rotation == LET e == hist[Len(hist)] IN
  (hist # <<>> /\ st.up /\ st.kind = "size" /\ st.cur # <<>> /\ Len(st.cur[1]) > 1 /\ e.do = "write" /\ e.fault = NoFault)
     => SizeOf(SubSeq(st.cur[1], 1, Len(st.cur[1]) - 1)) < st.limit
\* every step of the design is an outcome
Refines == LET e == hist'[Len(hist')]
               t == [s |-> e.s, ms |-> e.ms] IN
           (hist' # <<>>) => \E o \in Outcomes(st, t, back, [result |-> Answer(st, t, e)] @@ e) : o = st' \/ back
Refinement == [][Refines]_<<st, hist>>
=============================================================================
