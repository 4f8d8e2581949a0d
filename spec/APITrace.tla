------------------------------ MODULE APITrace ------------------------------
(***************************************************************************)
(* Decides whether recorded executions of the real library are behaviours  *)
(* of FiberAPI.  Each line of the input file is one execution:             *)
(*   [id, n: fibers, t: threads, m: fibers may migrate, o: objects, ev]    *)
(* Accepted executions are printed as <<"ACC", id>>.                       *)
(***************************************************************************)
EXTENDS FiberAPI, TLC, TLCExt, IOUtils, Json

Traces == ndJsonDeserialize(IOEnv.TRACE)
Verbose == "DIAG" \in DOMAIN IOEnv
Inv(f) == TRUE

VARIABLES tid, i, s
vars == <<tid, i, s>>

Ev == Traces[tid].ev
E == Ev[i]
Kind == E[1]
\* time stamp of an event that has one
TimeOf(e) == CASE e[1] = "c" -> e[7] [] e[1] = "r" -> e[6] [] e[1] \in {"stuck", "idle"} -> e[2] [] OTHER -> -1
\* upper bound of the present: time of the next event that is stamped
RECURSIVE NextTime(_)
NextTime(j) == IF j > Len(Ev) THEN 1000000000 ELSE IF TimeOf(Ev[j]) >= 0 THEN TimeOf(Ev[j]) ELSE NextTime(j + 1)

\* register tid: the execution has been accepted, no need to look for other explanations
Init == /\ tid \in 1..Len(Traces)
        /\ i = 1
        /\ TLCSet(tid, FALSE)
        /\ s = InitState(Traces[tid].o, Traces[tid].n, Traces[tid].t, Traces[tid].m)

Fibers == DOMAIN s.p
DoCall == /\ Kind = "c"
          /\ s.p[E[2]].ph = "idle"
          /\ s.fib[E[2]].life = "run"
          /\ LET s1 == Call(s, E[2], E[3], E[4], E[5], E[6]) IN
             s' = IF Len(E) = 8 THEN [s1 EXCEPT !.p[E[2]].e = 0] ELSE s1      \* 0: the deadline is a lower bound only
DoRet == /\ Kind = "r"
         /\ LET q == s.p[E[2]] IN q.ph = "done" /\ q.r = E[3] /\ q.v = E[4] /\ E[5] = 1
         /\ s' = [s EXCEPT !.p[E[2]] = Idle]
\* a fiber starts: launched before; launch::post does not enter it at once
DoBeg == /\ Kind = "beg"
         /\ s.fib[E[2]].life = "new"
         /\ \/ E[2] <= Traces[tid].t
            \/ Traces[tid].m = 1
            \/ ~ \E f \in Fibers : /\ Pending(s, f, {"fork", "async"}, E[2])
                                   /\ IF s.p[f].op = "fork" THEN s.p[f].a = 0 ELSE s.p[f].b < 2
         /\ s' = [s EXCEPT !.fib[E[2]].life = "run"]
DoFin == /\ Kind = "fin"
         /\ s.fib[E[2]].life = "run"
         /\ s.p[E[2]].ph = "idle"
         /\ LET fb == s.fib[E[2]] IN
            s' = IF fb.as = 0 THEN [s EXCEPT !.fib[E[2]].life = "end"]
                 ELSE [s EXCEPT !.fib[E[2]].life = "end",
                                !.p[E[2]] = [Pend("asyncres", 0, fb.as, fb.am) EXCEPT !.x = fb.av]]
DoClean == /\ Kind = "fcl"
           /\ CleanOk(s, E[2], E[3], E[4])
           /\ s' = Clean(s, E[2], E[4])
\* nothing in the execution can ever move again: then every running fiber
\* must be inside an operation that is blocked for good
Ever == 1000000000
DoStuck == /\ Kind = "stuck"
           /\ \A f \in Fibers : /\ s.fib[f].life # "new"
                                /\ Steps(s, f, Ever) = {}
                                /\ s.fib[f].life = "run" => s.p[f].ph \notin {"idle", "done"}
           /\ \E f \in Fibers : s.fib[f].life = "run"
           /\ UNCHANGED s
\* all threads sleep until a deadline: every running fiber is inside an
\* operation that can do nothing at the moment
Never == -1000000000
DoIdle == /\ Kind = "idle"
          /\ \A f \in Fibers : /\ s.fib[f].life # "new"
                               /\ s.fib[f].life = "run" => s.p[f].ph \notin {"idle", "done"}
                               /\ \/ Steps(s, f, IF s.p[f].e = 1 THEN E[2] ELSE Never) = {}
                                  \* (giving up on a mutex one owns may, but need not, be noticed at once)
                                  \/ s.p[f].op = "tlock" /\ s.o[s.p[f].o].own = f
          /\ UNCHANGED s
\* the orderly end of the whole program: all fibers have ended, nothing is left behind
DoEnd == /\ Kind = "end"
         /\ E[2] = 0 /\ E[3] = 0 /\ E[4] = 0
         /\ \A f \in Fibers : s.fib[f].life \in {"none", "end"} /\ s.p[f].ph = "idle"
         /\ \A k \in DOMAIN s.o : s.o[k].k = "fss" => \A f \in Fibers : f > Traces[tid].t => s.o[k].m[f] = 0
         /\ UNCHANGED s
\* a thread may end only when its main fiber has
DoTend == /\ Kind = "tend"
          /\ E[2] + 1 <= Traces[tid].t => s.fib[E[2] + 1].life = "end"
          /\ UNCHANGED s
\* events of the scheduler are judged by another specification
DoSkip == /\ Kind \in {"aw", "ae", "pb", "pk", "su", "sx", "awp", "pch", "sa", "sz", "lv"}
          /\ UNCHANGED s

\* Internal steps.  They are postponed to the next event which may depend on
\* them; a call only adds to what is enabled, so nothing is lost.
DoStep == /\ \/ Kind \in {"stuck", "idle", "end", "fcl"}
             \/ Kind = "r" /\ s.p[E[2]].ph # "done"
          /\ \E f \in Fibers : s' \in Steps(s, f, NextTime(i))
          /\ UNCHANGED <<tid, i>>

Next == /\ i <= Len(Ev)
        /\ ~ TLCGet(tid)
        /\ \/ /\ DoCall \/ DoRet \/ DoBeg \/ DoFin \/ DoClean \/ DoStuck \/ DoIdle \/ DoEnd \/ DoTend \/ DoSkip
              /\ i' = i + 1 /\ tid' = tid
           \/ DoStep
Spec == Init /\ [][Next]_vars

\* reports; always true
Report == /\ (i > Len(Ev) => TLCSet(tid, TRUE) /\ PrintT(<<"ACC", Traces[tid].id>>))
          /\ (Verbose => PrintT(<<"AT", Traces[tid].id, i>>))
=============================================================================
