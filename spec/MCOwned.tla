------------------------------ MODULE MCOwned ------------------------------
(***************************************************************************)
(* A function asked again and again with arrays of the caller, who changes  *)
(* their content between two requests and overwrites the results he got.    *)
(* A request is right when the answer is the one for the present content.   *)
(*   direct   the function computes the answer from its arguments           *)
(*   content  it remembers answers by content and hands out copies          *)
(*   handed   it remembers answers by content and hands out what it keeps   *)
(*   byid     it remembers answers by the identity of the arrays            *)
(*   first    it remembers the arrays (not their content) of each answer    *)
(* The first two satisfy the invariant, the others break it.                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, CSV, Json, IOUtils
CONSTANTS Buffers, Contents, MaxSteps, Way, GenFunctions
VARIABLES buf,      \* buffer of the caller -> content
          cells,    \* results: 0 overwritten by the caller, c the answer for content c
          memo,     \* what is remembered: key -> cell
          last,     \* the last answer is the right one
          log
vars == <<buf, cells, memo, last, log>>
Keys == Buffers \cup {100 + c : c \in Contents}
Init == /\ buf = [b \in Buffers |-> 1] /\ cells = <<>> /\ memo = [k \in Keys |-> 0] /\ last = TRUE /\ log = <<>>
Step(e) == Len(log) < MaxSteps /\ log' = Append(log, e)
Fill(b, c) == Step(<<"fill", b, c>>) /\ buf' = [buf EXCEPT ![b] = c] /\ UNCHANGED <<cells, memo, last>>
Key(b) == IF Way \in {"byid", "first"} THEN b ELSE 100 + buf[b]
Fresh(b) == Append(cells, buf[b])
Ask(b) == /\ Step(<<"ask", b>>) /\ UNCHANGED buf
          /\ CASE Way = "direct" -> cells' = Fresh(b) /\ last' = TRUE /\ UNCHANGED memo
               [] memo[Key(b)] = 0 ->
                    \* the cell kept, then (content, first) the one handed out
                    /\ cells' = IF Way \in {"content", "first"} THEN Append(Fresh(b), buf[b]) ELSE Fresh(b)
                    /\ memo' = [memo EXCEPT ![Key(b)] = Len(cells) + 1] /\ last' = TRUE
               [] OTHER ->
                    /\ cells' = IF Way \in {"content", "first"} THEN Append(cells, cells[memo[Key(b)]]) ELSE cells
                    /\ last' = (cells[memo[Key(b)]] = buf[b]) /\ UNCHANGED memo
(* the caller only reaches what was handed out to him *)
Kept == IF Way \in {"content", "first"} THEN {memo[k] : k \in Keys} ELSE {}
Write(j) == j \notin Kept /\ Step(<<"write", j>>) /\ cells' = [cells EXCEPT ![j] = 0] /\ UNCHANGED <<buf, memo, last>>
Next == \/ \E b \in Buffers : Ask(b) \/ \E c \in Contents : Fill(b, c)
        \/ \E j \in DOMAIN cells : Write(j)
Spec == Init /\ [][Next]_vars
Right == last
View == <<buf, cells, memo, last, Len(log)>>
(* ---------------- sessions to be replayed ---------------- *)
Asked == {i \in 1..Len(log) : log[i].op = "ask"}
GenNext == /\ Len(log) < MaxSteps /\ UNCHANGED <<cells, memo, last>>
           /\ \E u \in {RandomElement(1..6)}, b \in {RandomElement(Buffers)}, c \in {RandomElement(Contents)}, f \in {RandomElement(GenFunctions)} :
              IF u = 1 THEN buf' = [buf EXCEPT ![b] = c] /\ log' = Append(log, [op |-> "fill", b |-> b, c |-> c, f |-> 0])
              ELSE IF u = 2 /\ Asked # {} THEN UNCHANGED buf /\ log' = Append(log, [op |-> "write", b |-> RandomElement(Asked), c |-> 0, f |-> 0])
              ELSE UNCHANGED buf /\ log' = Append(log, [op |-> "ask", b |-> b, c |-> buf[b], f |-> f])
GenSpec == Init /\ [][GenNext]_vars
Done == Len(log) # MaxSteps \/ CSVWrite("%1$s", <<ToJson(log)>>, IOEnv.BEHAVIOURS)
=============================================================================
