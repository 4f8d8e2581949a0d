----------------------------- MODULE SchedTrace -----------------------------
(***************************************************************************)
(* The schedulers: which fiber is ready, running or neither, on which      *)
(* thread, and in which order the algorithms pick the ready ones.          *)
(* Decides whether recorded executions (calls of the algorithms' awakened, *)
(* pick_next, suspend_until, property_change and the events of the fibers) *)
(* are behaviours of this specification.                                   *)
(*                                                                         *)
(* Contexts: fibers 1..n (1..T: the main fibers of threads 0..T-1), and    *)
(* 100 + t: the dispatcher fiber of thread t.                              *)
(* Events:                                                                 *)
(*   aw t x a    awakened(x) on thread t while a is active                 *)
(*   ae t        ... has returned (algorithms that share their queues)     *)
(*   pb t        pick_next begins (same)                                   *)
(*   pk t x a    pick_next of thread t returns x (0: nothing), a is active *)
(*   su t tp     suspend_until begins: the thread is about to sleep        *)
(*   sa t k / sz t   the algorithm of the thread is replaced by kind k     *)
(*   awp t x p   the scheduler sees property p of x at its awakening       *)
(*   pch x p l   property_change reported for x, new value p               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, IOUtils, Json

Traces == ndJsonDeserialize(IOEnv.TRACE)
Verbose == "DIAG" \in DOMAIN IOEnv

VARIABLES tid, i, s
vars == <<tid, i, s>>
(* s is a record                                                           *)
(*   st   context -> "none" | "ready" | "run" | "off" | "dead"             *)
(*   run  thread -> context that runs on it                                *)
(*   k    thread -> algorithm                                              *)
(*   lq   thread -> its ready contexts, in the order they became ready     *)
(*   gq   the ready fibers shared by all threads                           *)
(*   nq   thread -> contexts given to the new algorithm while it replaces  *)
(*        the old one;  sw: thread -> replacement in progress              *)
(*   cl   thread -> call of the algorithm in progress                      *)
(*   home thread a fiber belongs to, when fibers do not migrate            *)
(*   pend fiber -> its pending operation;  pr: fiber -> property           *)
(*   pch  fiber -> property changes that have to be reported               *)
(*   yl   thread -> context that has called pick_next and left the thread  *)

Tr == Traces[tid]
Ev == Tr.ev
E == Ev[i]
Kind == E[1]
Threads == 0..(Tr.t - 1)
Fibers == 1..Tr.n
Disp(t) == 100 + t
Main(t) == t + 1
Pinned(x) == x >= 100 \/ x <= Tr.t
PinThread(x) == IF x >= 100 THEN x - 100 ELSE x - 1
Ctx == Fibers \cup {Disp(t) : t \in Threads}
Shared(k) == k \in {"sw", "swn"}
Steals(k) == k \in {"ws", "wsn"}
Migr(k) == Shared(k) \/ Steals(k)
Fifo(k) == k = "rr"
NoCall == [c |-> "no", x |-> 0]
NoOp == [op |-> "", o |-> 0, a |-> 0, b |-> 0]
TimeOf(e) == CASE e[1] = "c" -> e[7] [] e[1] = "r" -> e[6] [] e[1] \in {"stuck", "idle"} -> e[2] [] OTHER -> -1
RECURSIVE NextTime(_)
NextTime(j) == IF j > Len(Ev) THEN 1000000000 ELSE IF TimeOf(Ev[j]) >= 0 THEN TimeOf(Ev[j]) ELSE NextTime(j + 1)

Range(q) == {q[j] : j \in 1..Len(q)}
RECURSIVE Without(_, _)
Without(q, x) == IF q = << >> THEN q ELSE IF Head(q) = x THEN Tail(q) ELSE <<Head(q)>> \o Without(Tail(q), x)

\* register tid: the execution has been accepted, no need to look for other explanations
Init == /\ tid \in 1..Len(Traces)
        /\ i = 1
        /\ TLCSet(tid, FALSE)
        /\ s = LET tr == Traces[tid]  th == 0..(tr.t - 1)  cx == 1..tr.n \cup {100 + t : t \in th} IN
               [st |-> [x \in cx |-> IF x <= tr.t THEN "run" ELSE "none"],
                run |-> [t \in th |-> t + 1],
                k |-> [t \in th |-> tr.al[t + 1]],
                lq |-> [t \in th |-> << >>], gq |-> << >>,
                nq |-> [t \in th |-> << >>], sw |-> [t \in th |-> FALSE],
                cl |-> [t \in th |-> NoCall],
                home |-> [x \in cx |-> IF x >= 100 THEN x - 100 ELSE IF x <= tr.t THEN x - 1 ELSE -1],
                pend |-> [x \in 1..tr.n |-> NoOp],
                pr |-> [x \in 1..tr.n |-> 0],
                pch |-> [x \in 1..tr.n |-> 0]]

-----------------------------------------------------------------------------
(* A context becomes ready.                                                *)
TimedOps == {"tlock", "waitu", "waitpu", "pushu", "popu", "fwaitu", "sleep"}
Deadline(q) == IF q.op \in {"tlock", "sleep"} THEN q.a ELSE q.b
\* The dispatcher of the only thread resumes fibers whose time has come,
\* no others
Reason(x, a) ==
  IF Tr.t > 1 \/ a < 100 \/ x > Tr.n \/ i = 1 THEN TRUE
  ELSE IF s.st[x] = "none" THEN TRUE
  ELSE IF Ev[i - 1][1] = "pk" /\ Ev[i - 1][4] = x THEN TRUE     \* it yields
  ELSE s.pend[x].op \in TimedOps /\ NextTime(i) >= Deadline(s.pend[x])
Entered(x, a) == /\ a \in Fibers /\ s.st[a] = "none"      \* launch::dispatch: a has just been entered by x
                 /\ s.pend[x].op \in {"fork", "async"} /\ s.pend[x].o = a
\* awakened(x) on thread t; s1: the state after a possible change of the running fiber
AwState(t, x, a) ==
  IF s.run[t] = a \/ a = 0 THEN s
  ELSE [s EXCEPT !.run[t] = a, !.st[a] = "run", !.st[x] = "off", !.home[a] = t]
AwOk(t, x, a) ==
  /\ x \in Ctx
  /\ IF a = 0 THEN x = Disp(t) ELSE s.run[t] = a \/ (s.run[t] = x /\ Entered(x, a))
  /\ Pinned(x) => PinThread(x) = t
  /\ LET z == AwState(t, x, a) IN
     /\ z.st[x] \in (IF s.sw[t] THEN {"moved"} ELSE {"none", "off"})
     /\ ~ Migr(s.k[t]) => z.home[x] \in {-1, t}
     /\ Reason(x, a)
Put(z, t, x) ==
  LET y == [z EXCEPT !.st[x] = "ready", !.home[x] = t] IN
  IF s.sw[t] THEN [y EXCEPT !.nq[t] = Append(@, x)]
  ELSE IF Shared(s.k[t]) /\ ~ Pinned(x) THEN [y EXCEPT !.gq = Append(@, x)]
  ELSE [y EXCEPT !.lq[t] = Append(@, x)]
DoAw == /\ Kind = "aw"
        /\ s.cl[E[2]].c = "no"
        /\ AwOk(E[2], E[3], E[4])
        /\ s' = IF Migr(s.k[E[2]]) THEN [AwState(E[2], E[3], E[4]) EXCEPT !.cl[E[2]] = [c |-> "aw", x |-> E[3]]]
                ELSE Put(AwState(E[2], E[3], E[4]), E[2], E[3])
\* the effect of awakened on a queue that is shared
LinAw(t) == /\ s.cl[t].c = "aw"
            /\ s' = [Put(s, t, s.cl[t].x) EXCEPT !.cl[t].c = "done"]
DoAe == /\ Kind = "ae" /\ s.cl[E[2]].c = "done"
        /\ s' = [s EXCEPT !.cl[E[2]] = NoCall]

(* The algorithm picks one.                                                *)
FromL(t, x) == [s EXCEPT !.lq[t] = Without(@, x)]
Picks(t) ==      \* set of <<state, context>>
  LET k == s.k[t]  l == s.lq[t] IN
  CASE Shared(k) -> IF s.gq # << >> THEN {<<[s EXCEPT !.gq = Tail(@)], Head(s.gq)>>}
                    ELSE IF l # << >> THEN {<<[s EXCEPT !.lq[t] = Tail(@)], Head(l)>>} ELSE {<<s, 0>>}
    [] Steals(k) -> IF l # << >> THEN {<<FromL(t, x), x>> : x \in Range(l)}
                    ELSE {<<s, 0>>} \cup UNION {{<<FromL(u, x), x>> : x \in {y \in Range(s.lq[u]) : ~ Pinned(y)}} : u \in Threads \ {t}}
    [] Fifo(k) -> IF l = << >> THEN {<<s, 0>>} ELSE {<<FromL(t, Head(l)), Head(l)>>}
    [] OTHER -> IF l = << >> THEN {<<s, 0>>} ELSE {<<FromL(t, x), x>> : x \in Range(l)}
\* x is resumed by thread t in place of a
Switch(z, t, x, a) ==
  IF x = 0 THEN z
  ELSE IF s.sw[t] THEN [z EXCEPT !.st[x] = "moved"]
  ELSE [z EXCEPT !.run[t] = x, !.home[x] = t, !.st[a] = IF @ = "dead" THEN "dead" ELSE "off", !.st[x] = "run"]
DoPb == /\ Kind = "pb" /\ Migr(s.k[E[2]]) /\ s.cl[E[2]].c = "no"
        /\ s' = [s EXCEPT !.cl[E[2]] = [c |-> "pk", x |-> 0]]
LinPk(t) == /\ s.cl[t].c = "pk"
            /\ \E p \in Picks(t) :
                 s' = [p[1] EXCEPT !.cl[t] = [c |-> "done", x |-> p[2]],
                                   !.st = IF p[2] = 0 THEN @ ELSE [@ EXCEPT ![p[2]] = "picked"]]
DoPk == /\ Kind = "pk"
        /\ LET t == E[2]  x == E[3]  a == E[4] IN
           /\ s.run[t] = a
           /\ a = Disp(t) \/ x # 0          \* only the dispatcher can do without
           /\ IF Migr(s.k[t]) THEN /\ s.cl[t].c = "done" /\ s.cl[t].x = x
                                   /\ s' = Switch([s EXCEPT !.cl[t] = NoCall], t, x, a)
              ELSE \E p \in Picks(t) : p[2] = x /\ s' = Switch(p[1], t, x, a)

(* A thread goes to sleep only when it has nothing to run.                 *)
DoSu == /\ Kind = "su"
        /\ s.run[E[2]] = Disp(E[2]) /\ s.lq[E[2]] = << >>
        /\ UNCHANGED s
DoSx == /\ Kind \in {"sx", "lv", "fcl", "tend"} /\ UNCHANGED s

(* Replacing the algorithm of a running thread.                            *)
KindOf(n) == CASE n = 0 -> "rr" [] n = 2 -> "prio" [] OTHER -> "chaos"
DoSa == /\ Kind = "sa" /\ ~ s.sw[E[2]]
        /\ s' = [s EXCEPT !.sw[E[2]] = TRUE, !.pend[s.run[E[2]]].a = E[3]]
DoSz == /\ Kind = "sz" /\ s.sw[E[2]]
        /\ s.lq[E[2]] = << >>               \* nobody is left behind
        /\ s' = [s EXCEPT !.sw[E[2]] = FALSE, !.lq[E[2]] = s.nq[E[2]], !.nq[E[2]] = << >>,
                          !.k[E[2]] = KindOf(s.pend[s.run[E[2]]].a)]

(* Properties.                                                             *)
PropOf(x) == IF x \in Fibers THEN s.pr[x] ELSE 0
DoAwp == /\ Kind = "awp"
         /\ E[4] = PropOf(E[3])
         /\ UNCHANGED s
DoPch == /\ Kind = "pch"
         /\ s.pch[E[2]] > 0 /\ E[3] = s.pr[E[2]] /\ E[4] = 1
         /\ s' = [s EXCEPT !.pch[E[2]] = @ - 1]

(* The fibers.                                                             *)
Running(f) == \E t \in Threads : s.run[t] = f
DoCall == /\ Kind = "c"
          /\ Running(E[2])
          /\ LET f == E[2]  z == [s EXCEPT !.pend[f] = [op |-> E[3], o |-> E[4], a |-> E[5], b |-> E[6]]] IN
             s' = CASE E[3] = "fork" -> [z EXCEPT !.pr[E[4]] = E[6]]
                    [] E[3] = "setprio" ->
                         [z EXCEPT !.pr[E[4]] = E[5], !.pch[E[4]] = IF s.st[E[4]] = "ready" THEN 1 ELSE 0]
                    [] OTHER -> z
Emptiness(f) == LET t == CHOOSE u \in Threads : s.run[u] = f IN
                Migr(s.k[t]) \/ E[4] = (IF s.lq[t] = << >> THEN 0 ELSE 1)
DoRet == /\ Kind = "r"
         /\ Running(E[2])
         /\ s.pend[E[2]].op = "hasready" => Emptiness(E[2])
         /\ s.pend[E[2]].op = "setprio" => s.pch[s.pend[E[2]].o] = 0    \* reported by now
         /\ s' = [s EXCEPT !.pend[E[2]] = NoOp]
DoBeg == /\ Kind = "beg"
         /\ \/ s.run[E[3]] = E[2]
            \* the main fiber of a thread
            \/ FALSE
         /\ UNCHANGED s
DoFin == /\ Kind = "fin"
         /\ s.run[E[3]] = E[2]
         /\ s' = IF Pinned(E[2]) THEN s ELSE [s EXCEPT !.st[E[2]] = IF Tr.m = 1 THEN @ ELSE "dead"]
\* nothing moves any more: nothing may be ready
DoStuck == /\ Kind = "stuck"
           /\ s.gq = << >>
           /\ \A t \in Threads : s.lq[t] = << >>
           /\ UNCHANGED s
DoEnd == /\ Kind = "end" /\ UNCHANGED s

DoStep == /\ Kind \in {"ae", "pk"} /\ s.cl[E[2]].c \notin {"done", "no"}
          /\ \E t \in Threads : LinAw(t) \/ LinPk(t)
          /\ UNCHANGED <<tid, i>>

Next == /\ i <= Len(Ev)
        /\ ~ TLCGet(tid)
        /\ \/ /\ \/ DoAw \/ DoAe \/ DoPb \/ DoPk \/ DoSu \/ DoSx \/ DoSa \/ DoSz \/ DoAwp \/ DoPch
                 \/ DoCall \/ DoRet \/ DoBeg \/ DoFin \/ DoStuck \/ DoEnd
              /\ i' = i + 1 /\ tid' = tid
           \/ DoStep
Spec == Init /\ [][Next]_vars

Report == /\ (i > Len(Ev) => TLCSet(tid, TRUE) /\ PrintT(<<"ACC", Traces[tid].id>>))
          /\ (Verbose => PrintT(<<"AT", Traces[tid].id, i>>))
=============================================================================
