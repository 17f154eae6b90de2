----------------------------- MODULE LogRecords -----------------------------
(* What the events of the gateway become as log records for OpenTelemetry.   *)
(* A text is <<p, w, n>>: p characters of one byte, then n characters of w   *)
(* bytes.  Texts are cut at their limit, between characters.  The history is *)
(* of spans opened and closed, one inside the other, and of events in them.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
VARIABLES stack, spans, hist, said, dice

MaxFields == 50
MaxField == 1024
MaxMessage == 8192
Size(t) == t[1] + t[2] * t[3]
Cut(t, limit) == IF Size(t) <= limit THEN [text |-> t, cut |-> FALSE]
                 ELSE IF t[1] >= limit THEN [text |-> <<limit, t[2], 0>>, cut |-> TRUE]
                 ELSE [text |-> <<t[1], t[2], (limit - t[1]) \div t[2]>>, cut |-> TRUE]
\* Numbers by name: those of 64 bits with a sign stay numbers, others become text.
Fits == {"zero", "minus one", "i64 min", "i64 max"}
Numbers == <<"zero", "minus one", "i64 min", "i64 max", "i64 max and one", "u64 max", "i128 min", "u128 max">>
Text(d, limit) == <<IF d % 5 = 0 THEN d % 7 ELSE (IF d % 5 = 1 THEN 1020 ELSE limit - 6) + ((d \div 5) % 8), 1 + ((d \div 40) % 4), (d \div 160) % 7>>
Field(d, i) ==
  LET x == (d + i * 7) % 10  r == d \div 10 + i IN
  CASE x < 4 -> <<"text", <<"str", "debug", "error", "str">>[x + 1], Text(r, MaxField)>>
    [] x < 7 -> <<"number", Numbers[1 + (r % 8)], (r \div 8) % 4>>
    [] x = 7 -> <<"bool", r % 2>>
    [] x = 8 -> <<"float", r % 5>>
    [] OTHER -> <<"bytes", 1020 + (r % 8)>>
Short(d, i) == IF i > 6 THEN <<"number", "zero", i % 4>> ELSE Field(d, i)
\* What becomes of a field.
Attribute(f) == CASE f[1] = "text" -> <<"text", Cut(f[3], MaxField)>>
                  [] f[1] = "number" -> <<IF f[2] \in Fits THEN "number" ELSE "digits", f[2]>>
                  [] f[1] = "bytes" -> <<"bytes", IF f[2] > MaxField THEN MaxField ELSE f[2]>>
                  [] OTHER -> f
Errors(fs) == {i \in 1..Len(fs) : fs[i][1] = "text" /\ fs[i][2] = "error"}
Last(s) == CHOOSE i \in s : \A j \in s : j <= i
Record(e) ==
  [level |-> e.level,
   body |-> IF e.message = <<>> THEN <<>> ELSE <<Cut(e.message[1], MaxMessage)>>,
   attributes |-> [i \in 1..(IF Len(e.fields) > MaxFields THEN MaxFields ELSE Len(e.fields)) |-> Attribute(e.fields[i])],
   dropped |-> IF Len(e.fields) > MaxFields THEN Len(e.fields) - MaxFields ELSE 0,
   exception |-> IF Errors(e.fields) = {} THEN <<>> ELSE <<Attribute(e.fields[Last(Errors(e.fields))])>>,
   span |-> IF stack = <<>> THEN 0 ELSE stack[Len(stack)]]
Event ==
  LET n == IF dice[2] % 9 = 0 THEN 45 + ((dice[2] \div 9) % 12) ELSE dice[2] % 5 IN
  [level |-> dice[3] % 5, place |-> (dice[3] \div 5) % 4, by |-> (dice[3] \div 20) % 2,
   message |-> IF dice[4] % 6 = 0 THEN <<>> ELSE <<Text(dice[4] \div 6, MaxMessage)>>,
   fields |-> [i \in 1..n |-> Short(dice[5], i)]]
Open(remote) == /\ stack' = Append(stack, Len(spans) + 1)
                /\ spans' = Append(spans, IF stack = <<>> THEN [root |-> Len(spans) + 1, remote |-> remote, parent |-> 0]
                                          ELSE [root |-> spans[stack[Len(stack)]].root, remote |-> FALSE, parent |-> stack[Len(stack)]])
                /\ hist' = Append(hist, [what |-> "open", remote |-> stack = <<>> /\ remote])
Close == stack' = SubSeq(stack, 1, Len(stack) - 1) /\ hist' = Append(hist, [what |-> "close"]) /\ UNCHANGED spans
Tell == LET e == Event IN hist' = Append(hist, [what |-> "event", event |-> e, record |-> Record(e)]) /\ UNCHANGED <<stack, spans>>
Init == stack = <<>> /\ spans = <<>> /\ hist = <<>> /\ said = 0 /\ dice = [k \in 1..5 |-> RandomElement(1..9999999)]
Next ==
  /\ IF Len(hist) = 9 THEN PrintT("CASE " \o ToJson([steps |-> hist, spans |-> spans])) ELSE TRUE
  /\ IF Len(hist) = 9 THEN stack' = <<>> /\ spans' = <<>> /\ hist' = <<>>
     ELSE IF dice[1] % 3 = 0 /\ Len(stack) < 3 THEN Open((dice[1] \div 3) % 3 = 0)
     ELSE IF dice[1] % 5 = 1 /\ stack # <<>> THEN Close ELSE Tell
  /\ said' = said + 1
  /\ dice' = TLCEval([k \in 1..5 |-> RandomElement(0..(9999999 + said))])
\* ------------------------------------------------------------- invariants
Told == {hist[i] : i \in {j \in 1..Len(hist) : hist[j].what = "event"}}
Whole(t, limit) == LET c == Cut(t, limit) IN
  Size(c.text) <= limit /\ (c.cut <=> Size(t) > limit) /\ (c.cut => Size(c.text) > limit - t[2] /\ c.text[1] <= t[1] /\ c.text[3] <= t[3])
\* A text is cut if and only if it is too long, and then as late as possible.
WholeCharacters == \A h \in Told : \A i \in 1..Len(h.event.fields) : h.event.fields[i][1] = "text" => Whole(h.event.fields[i][3], MaxField)
WholeMessages == \A h \in Told : h.event.message # <<>> => Whole(h.event.message[1], MaxMessage)
\* No field goes missing silently.
Counted == \A h \in Told : Len(h.record.attributes) + h.record.dropped = Len(h.event.fields)
\* Spans inside each other are of one trace.
OneTrace == \A i, j \in 1..Len(stack) : spans[stack[i]].root = spans[stack[j]].root
=============================================================================
