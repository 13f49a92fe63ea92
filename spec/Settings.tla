------------------------------ MODULE Settings ------------------------------
(***************************************************************************)
(* Settings of the process: e.r.now are their values after an event, in    *)
(* the order of the names recorded by the first one.  The caller sets      *)
(* them; a request leaves them as it found them, however it ends.          *)
(***************************************************************************)
EXTENDS Rec
EnvNames(before) == before[1].a.names
EnvPast(before) == before[Len(before)].r.now
EnvAsk(before, e) ==
  UNION {Must("C44." \o EnvNames(before)[k], e.r.now[k] = EnvPast(before)[k]) : k \in 1..Len(EnvNames(before))}
  \cup Must("C44.printed", e.a.prints \/ e.r.printed = "")
  \cup Must("C44.no-end", e.r.exc # "Hang")
=============================================================================
