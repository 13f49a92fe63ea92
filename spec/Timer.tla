-------------------------------- MODULE Timer --------------------------------
(***************************************************************************)
(* Wall clock timers: every stop measures the time since the last start of *)
(* the same timer, divided by its scale, whatever other timers do.          *)
(* Recorded with each call: the clock just before and just after it.        *)
(***************************************************************************)
EXTENDS Rec
TimerNews(before) == SelectSeq(before, LAMBDA e : e.op = "tm.new")
TimerOf(before, t) == LET n == SelectSeq(before, LAMBDA e : e.op = "tm.new" /\ e.a.t = t) IN n[Len(n)].a
StartsOf(before, t) == SelectSeq(before, LAMBDA e : e.op = "tm.start" /\ e.a.t = t)
StopsOf(before, t) == SelectSeq(before, LAMBDA e : e.op = "tm.stop" /\ e.a.t = t /\ e.r.exc = "")
Slack == RQ(1, 50000)
TimerStart(before, e) ==
  IF e.r.exc # "" THEN {"C38.start-raises"}
  ELSE Must("C38.start-message", e.r.hasName /\ e.r.lines = 1)
TimerStop(before, e) ==
  LET st == StartsOf(before, e.a.t) tm == TimerOf(before, e.a.t) IN
  IF st = <<>> THEN Must("C38.stop-without-start", e.r.exc # "")
  ELSE IF e.r.exc # "" THEN {"C38.stop-raises"}
  ELSE LET s == st[Len(st)] sc == Scalar(tm.scale) w == Scalar(e.r.wall)
           lo == RSub(RMul(RQ(998, 1000), RSub(Scalar(e.r.t0), Scalar(s.r.t1))), Slack)
           hi == RAdd(RMul(RQ(1002, 1000), RSub(Scalar(e.r.t1), Scalar(s.r.t0))), Slack)
           x == RMul(w, sc)
       IN Must("C38.wall-time", RLe(lo, x) /\ RLe(x, hi))
          \cup Must("C38.stop-message", e.r.hasDescr /\ e.r.lines = 1 /\ Within(Scalar(e.r.shown), w, RMul(RQ(1, 50), RAbs(w))))
          \cup Must("C38.exception-kept", ~e.r.suppressed)
(* the last measure stays until the next stop, whatever other timers do        *)
TimerRead(before, e) ==
  LET st == StopsOf(before, e.a.t) IN
  IF st = <<>> THEN {} ELSE IF e.r.exc # "" THEN {"C38.wall-time-lost"} ELSE Must("C38.wall-time-kept", SameArr(e.r.wall, st[Len(st)].r.wall))
=============================================================================
