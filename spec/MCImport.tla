------------------------------ MODULE MCImport ------------------------------
(***************************************************************************)
(* Modules of a package imported one after the other, in any order.  The   *)
(* import of a module first imports its package; a module being imported   *)
(* runs its statements: imports of modules, imports of names (which the    *)
(* other module must have defined by then, even when it is still running), *)
(* definitions and registrations.  Layouts of a package with a registry:   *)
(*   all    each package imports its modules after its own definitions,    *)
(*          and the root imports the packages                              *)
(*   lazy   the root does not import the package with the registrations    *)
(*   early  a package imports its modules before its own definitions       *)
(*   cycle  the utilities take a name from the package that uses them      *)
(* After the first import of anything the registry is complete ("all").    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, CSV, Json, IOUtils
CONSTANTS Layout, MaxSteps, GenModules, GenWays, GenSettings
VARIABLES running,  \* modules being imported, the last one first: <<module, statements left>>
          started,  \* modules of which the import has started
          defs,     \* <<module, name>> defined so far
          reg,      \* registered names
          failed, log
vars == <<running, started, defs, reg, failed, log>>
Modules == {"root", "q", "q.a", "q.b", "d", "d.a", "d.b", "u", "u.s"}
Parent(m) == CASE m \in {"q.a", "q.b"} -> "q" [] m \in {"d.a", "d.b"} -> "d" [] m = "u.s" -> "u" [] m = "root" -> "" [] OTHER -> "root"
Imp(m) == [op |-> "import", m |-> m, n |-> ""]
From(m, n) == [op |-> "from", m |-> m, n |-> n]
Def(n) == [op |-> "def", m |-> "", n |-> n]
Reg(n) == [op |-> "reg", m |-> "", n |-> n]
Body(m) ==
  CASE m = "root" -> IF Layout = "lazy" THEN <<From("q", "gen")>> ELSE <<From("q", "gen"), From("d", "gen")>>
    [] m = "q"    -> IF Layout = "early" THEN <<From("u", "store"), Imp("q.a"), Imp("q.b"), Def("class"), Def("gen")>>
                                        ELSE <<From("u", "store"), Def("class"), Def("gen"), Imp("q.a"), Imp("q.b")>>
    [] m = "q.a"  -> <<From("q", "class"), Reg("qa")>>
    [] m = "q.b"  -> <<From("q", "class"), Reg("qb")>>
    [] m = "d"    -> <<From("u", "store"), From("q", "class"), Def("class"), Def("gen"), Imp("d.a"), Imp("d.b")>>
    [] m = "d.a"  -> <<From("d", "class"), Reg("da")>>
    [] m = "d.b"  -> <<From("d", "class"), From("q.b", "class"), Reg("db")>>
    [] m = "u"    -> IF Layout = "cycle" THEN <<From("q", "class"), Def("store")>> ELSE <<Def("store")>>
    [] m = "u.s"  -> <<Def("solve")>>
Init == running = <<>> /\ started = {} /\ defs = {} /\ reg = {} /\ failed = FALSE /\ log = <<>>
Idle == running = <<>>
(* the modules to be started for an import, the outermost first *)
RECURSIVE Chain(_)
Chain(m) == IF m = "" THEN <<>> ELSE Append(Chain(Parent(m)), m)
Missing(m) == SelectSeq(Chain(m), LAMBDA x : x \notin started)
User(m) == /\ Idle /\ ~failed /\ Len(log) < MaxSteps /\ log' = Append(log, m)
           /\ running' = <<[m |-> "", todo |-> <<Imp(m)>>]>> /\ UNCHANGED <<started, defs, reg, failed>>
Top == running[1]
Rest == Tail(running)
Done1 == [Top EXCEPT !.todo = Tail(@)]
Step == /\ ~Idle /\ ~failed /\ UNCHANGED log
        /\ IF Top.todo = <<>> THEN running' = Rest /\ UNCHANGED <<started, defs, reg, failed>>
           ELSE LET s == Head(Top.todo) IN
             CASE s.op = "def" -> defs' = defs \cup {<<Top.m, s.n>>} /\ running' = <<Done1>> \o Rest /\ UNCHANGED <<started, reg, failed>>
               [] s.op = "reg" -> reg' = reg \cup {s.n} /\ running' = <<Done1>> \o Rest /\ UNCHANGED <<started, defs, failed>>
               [] Missing(s.m) # <<>> -> LET x == Missing(s.m)[1] IN
                    /\ started' = started \cup {x} /\ running' = <<[m |-> x, todo |-> Body(x)]>> \o running /\ UNCHANGED <<defs, reg, failed>>
               [] s.op = "from" /\ <<s.m, s.n>> \notin defs -> failed' = TRUE /\ UNCHANGED <<running, started, defs, reg>>
               \* an imported name is defined in the module that imports it, too
               [] OTHER -> /\ defs' = (IF s.op = "from" THEN defs \cup {<<Top.m, s.n>>} ELSE defs)
                           /\ running' = <<Done1>> \o Rest /\ UNCHANGED <<started, reg, failed>>
Next == Step \/ \E m \in Modules : User(m)
Spec == Init /\ [][Next]_vars
Works == ~failed
Complete == (Idle /\ log # <<>> /\ ~failed) => reg = {"qa", "qb", "da", "db"}
View == <<running, started, defs, reg, failed, Len(log)>>
(* sessions to be replayed: the settings of the caller, then modules and ways to import them *)
GenNext == /\ Len(log) < MaxSteps /\ UNCHANGED <<running, started, defs, reg, failed>>
           /\ \E m \in {RandomElement(GenModules)}, w \in {RandomElement(GenWays)}, c \in {RandomElement(GenSettings)} :
              log' = Append(log, [m |-> m, w |-> w, c |-> c])
GenSpec == Init /\ [][GenNext]_vars
Done == Len(log) # MaxSteps \/ CSVWrite("%1$s", <<ToJson(log)>>, IOEnv.BEHAVIOURS)
=============================================================================
