----------------------------- MODULE MCSettings -----------------------------
(***************************************************************************)
(* Settings of the process (error handling, warning filters, random state, *)
(* folder ...) chosen by the caller, and requests that change some of them *)
(* for a while.  A request may contain others, and may end at any moment   *)
(* with an exception.                                                      *)
(*   always    what was changed is put back on every exit                  *)
(*   normal    ... when the request ends without an exception              *)
(*   default   the default is put back, whatever was there before          *)
(*   first     what was there at the first request is put back             *)
(* With the first one the caller finds his settings after each request.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, CSV, Json, IOUtils
CONSTANTS Comps, Values, MaxDepth, MaxSteps, Way, Kinds, Numbers
VARIABLES now,      \* component -> present value
          caller,   \* component -> value chosen by the caller
          stack,    \* changes in progress: <<component, value before>>
          active,   \* a request is in progress
          memo,     \* component -> value at the first change (0: none so far)
          log
vars == <<now, caller, stack, active, memo, log>>
Init == /\ now = [c \in Comps |-> 1] /\ caller = now /\ stack = <<>> /\ active = FALSE /\ memo = [c \in Comps |-> 0] /\ log = <<>>
Choose(c, v) == /\ ~active /\ Len(log) < MaxSteps /\ caller' = [caller EXCEPT ![c] = v] /\ now' = [now EXCEPT ![c] = v]
                /\ log' = Append(log, "set") /\ UNCHANGED <<stack, active, memo>>
Begin == ~active /\ Len(log) < MaxSteps /\ active' = TRUE /\ log' = Append(log, "ask") /\ UNCHANGED <<now, caller, stack, memo>>
Change(c, v) == /\ active /\ Len(stack) < MaxDepth /\ stack' = Append(stack, <<c, now[c]>>) /\ now' = [now EXCEPT ![c] = v]
                /\ memo' = IF memo[c] = 0 THEN [memo EXCEPT ![c] = now[c]] ELSE memo
                /\ UNCHANGED <<caller, active, log>>
Before(fr) == CASE Way = "default" -> 1 [] Way = "first" -> memo[fr[1]] [] OTHER -> fr[2]
Undo == /\ active /\ stack # <<>> /\ LET fr == stack[Len(stack)] IN now' = [now EXCEPT ![fr[1]] = Before(fr)]
        /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ UNCHANGED <<caller, active, memo, log>>
Return == active /\ stack = <<>> /\ active' = FALSE /\ UNCHANGED <<now, caller, stack, memo, log>>
(* an exception leaves all changes in progress, the last one first *)
RECURSIVE Unwound(_, _)
Unwound(f, st) == IF st = <<>> THEN f ELSE Unwound([f EXCEPT ![st[Len(st)][1]] = Before(st[Len(st)])], SubSeq(st, 1, Len(st) - 1))
Fail == /\ active /\ active' = FALSE /\ stack' = <<>> /\ now' = (IF Way = "normal" THEN now ELSE Unwound(now, stack))
        /\ UNCHANGED <<caller, memo, log>>
Next == \/ \E c \in Comps, v \in Values : Choose(c, v) \/ Change(c, v)
        \/ Begin \/ Undo \/ Return \/ Fail
Spec == Init /\ [][Next]_vars
Kept == ~active => now = caller
View == <<now, caller, stack, active, memo, Len(log)>>
(* ---------------- sessions to be replayed ---------------- *)
GenNext == /\ Len(log) < MaxSteps /\ UNCHANGED <<now, stack, active, memo>>
           /\ \E u \in {RandomElement(1..3)}, c \in {RandomElement(Comps)}, v \in {RandomElement(Values)}, k \in {RandomElement(Kinds)}, i \in {RandomElement(Numbers)} :
              IF u = 1 THEN caller' = [caller EXCEPT ![c] = v] /\ log' = Append(log, [op |-> "set", c |-> c, v |-> v])
              ELSE UNCHANGED caller /\ log' = Append(log, [op |-> "ask", c |-> k, v |-> i])
GenSpec == Init /\ [][GenNext]_vars
Done == Len(log) # MaxSteps \/ CSVWrite("%1$s", <<ToJson(log)>>, IOEnv.BEHAVIOURS)
=============================================================================
