------------------------------ MODULE FiberAPI ------------------------------
(***************************************************************************)
(* The observable behaviour of Boost.Fiber: for every object of the        *)
(* library an abstract state, for every operation the atomic steps it may  *)
(* take between its call and its return.                                   *)
(*                                                                         *)
(* A state is a record  [o, p, fib, st, mig]:                              *)
(*   o    object index -> abstract object                                  *)
(*   p    fiber -> its pending operation (or Idle)                         *)
(*   fib  fiber -> life cycle of the fiber                                 *)
(*   st   sequence of shared states (promise / future)                     *)
(*   mig  1: fibers may migrate between threads                            *)
(* Every operator  XxxSteps(s, f, t)  gives the SET of states that one     *)
(* atomic step of the pending operation of fiber f may lead to at time t.  *)
(* An empty set means that the operation is blocked.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Idle == [ph |-> "idle", op |-> "", o |-> 0, a |-> 0, b |-> 0, x |-> 0, r |-> "", v |-> 0, e |-> 1]
Pend(op, o, a, b) == [ph |-> "call", op |-> op, o |-> o, a |-> a, b |-> b, x |-> 0, r |-> "", v |-> 0, e |-> 1]

Fin(s, f, r, v) == [s EXCEPT !.p[f].ph = "done", !.p[f].r = r, !.p[f].v = v]
SetO(s, i, ob) == [s EXCEPT !.o[i] = ob]
Pending(s, g, ops, ob) == /\ s.p[g].ph \notin {"idle", "done"}
                          /\ s.p[g].op \in ops
                          /\ s.p[g].o = ob

-----------------------------------------------------------------------------
(* Mutexes.  own = 0: free.  Recursive kinds count the levels.             *)
Recursive(m) == m.k \in {"rmutex", "rtmutex"}
LockOps == {"lock", "trylock", "tlock"}
CvWaits == {"wait", "waitu", "waitp", "waitpu"}
CvMutex(q) == q.a % 1000
Acquire(s, f, i) == [s EXCEPT !.o[i].own = f, !.o[i].cnt = @ + 1]
\* somebody else is about to take the mutex i
Contended(s, f, i) == \E g \in DOMAIN s.p : /\ g # f
    /\ \/ Pending(s, g, LockOps, i)
       \/ /\ s.p[g].ph \notin {"idle", "done"} /\ s.p[g].op \in CvWaits /\ CvMutex(s.p[g]) = i

MutexSteps(s, f, t) ==
  LET q == s.p[f]  i == q.o  m == s.o[i] IN
  CASE q.op = "unlock" ->
         IF m.own # f THEN {Fin(s, f, "eperm", 0)}
         ELSE {Fin([s EXCEPT !.o[i].cnt = @ - 1, !.o[i].own = IF m.cnt = 1 THEN 0 ELSE f], f, "ok", 0)}
    [] m.own = f /\ ~ Recursive(m) ->
         \* deadlock detection; a timed attempt may also just give up
         {Fin(s, f, "deadlk", 0)} \cup (IF q.op = "tlock" /\ t >= q.a THEN {Fin(s, f, "false", 0)} ELSE {})
    [] OTHER ->
         (IF m.own \in {0, f} THEN {Fin(Acquire(s, f, i), f, IF q.op = "lock" THEN "ok" ELSE "true", 0)} ELSE {})
         \cup (IF q.op = "trylock" /\ m.own \notin {0, f} THEN {Fin(s, f, "false", 0)} ELSE {})
         \cup (IF q.op = "tlock" /\ t >= q.a /\ m.own # f /\ (m.own # 0 \/ Contended(s, f, i))
               THEN {Fin(s, f, "false", 0)} ELSE {})

(* A plain variable, guarded by a mutex.                                   *)
VarSteps(s, f, t) ==
  LET q == s.p[f]  i == q.o  v == s.o[i].v IN
  CASE q.op = "inc" -> {Fin([s EXCEPT !.o[i].v = v + 1], f, "ok", v)}
    [] q.op = "set" -> {Fin([s EXCEPT !.o[i].v = q.a], f, "ok", 0)}
    [] q.op = "get" -> {Fin(s, f, "ok", v)}

(* Condition variables.  o.w: the set of waiting fibers.  Phases of a      *)
(* waiting operation: "call" (holds the mutex), "w" (waiting), "k" (woken  *)
(* by a notification), "t" (timed out).                                    *)
Wake(s, g) == [s EXCEPT !.p[g].ph = "k"]
PredVar(q) == IF q.op = "waitp" THEN q.b ELSE q.a \div 1000
CvSteps(s, f, t) ==
  LET q == s.p[f]  c == q.o  cv == s.o[c]  m == CvMutex(q)
      timed == q.op \in {"waitu", "waitpu"}
      pred == q.op \in {"waitp", "waitpu"}
      true == pred /\ s.o[PredVar(q)].v # 0
      free == s.o[m].own \in {0, f}
      got == Acquire(s, f, m)
      held == s.o[m].cnt IN     \* of a recursive mutex only one level is released
  CASE q.op = "n1" ->
         IF cv.w = {} THEN {Fin(s, f, "ok", 0)}
         ELSE {Fin([Wake(s, g) EXCEPT !.o[c].w = @ \ {g}], f, "ok", 0) : g \in cv.w}
    [] q.op = "na" ->
         {Fin([s EXCEPT !.o[c].w = {},
                        !.p = [g \in DOMAIN s.p |-> IF g \in cv.w THEN [s.p[g] EXCEPT !.ph = "k"] ELSE s.p[g]]],
              f, "ok", 0)}
    [] q.ph = "call" ->
         IF true THEN {Fin(s, f, IF q.op = "waitp" THEN "ok" ELSE "true", 0)}
         ELSE {[s EXCEPT !.o[c].w = @ \cup {f}, !.o[m].cnt = held - 1, !.o[m].own = IF held = 1 THEN 0 ELSE f,
                         !.p[f].ph = "w"]}
    [] q.ph = "w" ->
         IF timed /\ t >= q.b THEN {[s EXCEPT !.o[c].w = @ \ {f}, !.p[f].ph = "t"]} ELSE {}
    [] q.ph \in {"k", "t"} ->
         IF ~ free THEN {}
         ELSE (IF q.ph = "k" THEN
                  IF pred THEN {[got EXCEPT !.p[f].ph = "call"]} ELSE {Fin(got, f, "ok", 0)}
               ELSE {})
              \* out of time (a notified waiter may find this out as well)
              \cup (IF q.ph = "t" \/ (timed /\ t >= q.b) THEN
                  {Fin(got, f, IF ~ pred THEN "timeout" ELSE IF true THEN "true" ELSE "false", 0)}
               ELSE {})

(* Barriers.                                                               *)
BarSteps(s, f, t) ==
  LET q == s.p[f]  i == q.o  b == s.o[i] IN
  CASE q.op = "made" -> {Fin(s, f, IF q.a = 0 THEN "inval" ELSE "ok", 0)}
    [] q.ph = "call" ->
         IF b.c + 1 = b.n THEN {Fin([s EXCEPT !.o[i].c = 0, !.o[i].g = @ + 1], f, "true", 0)}
         ELSE {[s EXCEPT !.o[i].c = @ + 1, !.p[f].ph = "w", !.p[f].x = b.g]}
    [] q.ph = "w" -> IF b.g # q.x THEN {Fin(s, f, "false", 0)} ELSE {}

-----------------------------------------------------------------------------
(* Buffered channels.  A channel of capacity n holds n - 1 elements.       *)
PopOps  == {"pop", "popu", "vpop", "trypop"}
PushOps == {"push", "pushu", "trypush"}
IsPow2(n) == n \in {2, 4, 8, 16, 32, 64, 128, 256, 512, 1024}
Others(s, f, ops, i) == \E g \in DOMAIN s.p : g # f /\ Pending(s, g, ops, i)
ChMeta(s, f, ch) ==
  LET q == s.p[f]  i == q.o IN
  CASE q.op = "close" -> {Fin([s EXCEPT !.o[i].cl = TRUE], f, "ok", 0)}
    [] q.op = "closed" -> {Fin(s, f, IF ch.cl THEN "true" ELSE "false", 0)}
    [] q.op = "made" -> {Fin(s, f, IF ch.k = "bch" /\ ~ IsPow2(ch.cap) THEN "inval" ELSE "ok", 0)}
BchSteps(s, f, t) ==
  LET q == s.p[f]  i == q.o  ch == s.o[i]
      full == Len(ch.q) >= ch.cap - 1
      empty == ch.q = << >> IN
  CASE q.op \in PushOps ->
         IF ch.cl THEN {Fin(s, f, "closed", 0)}
         ELSE (IF ~ full THEN {Fin([s EXCEPT !.o[i].q = Append(@, q.a)], f, "ok", 0)}
               ELSE IF q.op = "trypush" THEN {Fin(s, f, "full", 0)} ELSE {})
              \cup (IF q.op = "pushu" /\ t >= q.b /\ (full \/ Others(s, f, PushOps, i))
                    THEN {Fin(s, f, "timeout", 0)} ELSE {})
    [] q.op \in PopOps ->
         (IF ~ empty THEN {Fin([s EXCEPT !.o[i].q = Tail(@)], f, "ok", Head(ch.q))}
          ELSE IF ch.cl THEN {Fin(s, f, "closed", 0)}
          ELSE IF q.op = "trypop" THEN {Fin(s, f, "empty", 0)} ELSE {})
         \cup (IF q.op = "popu" /\ t >= q.b /\ (empty \/ Others(s, f, PopOps, i))
               THEN {Fin(s, f, "timeout", 0)} ELSE {})
    [] OTHER -> ChMeta(s, f, ch)

(* Unbuffered channels: a value passes from a pending push to a pending    *)
(* pop in one step.  x = 1: the push was called on a closed channel.       *)
UchSteps(s, f, t) ==
  LET q == s.p[f]  i == q.o  ch == s.o[i]
      givers == {g \in DOMAIN s.p : Pending(s, g, PushOps, i) /\ s.p[g].x = 0} IN
  CASE q.op \in PushOps ->
         (IF ch.cl THEN {Fin(s, f, "closed", 0)} ELSE {})
         \cup (IF q.op = "pushu" /\ t >= q.b /\ q.x = 0 THEN {Fin(s, f, "timeout", 0)} ELSE {})
    [] q.op \in PopOps ->
         {Fin(Fin(s, g, "ok", 0), f, "ok", s.p[g].a) : g \in givers}
         \cup (IF ch.cl THEN {Fin(s, f, "closed", 0)} ELSE {})
         \cup (IF q.op = "popu" /\ t >= q.b THEN {Fin(s, f, "timeout", 0)} ELSE {})
    [] OTHER -> ChMeta(s, f, ch)

-----------------------------------------------------------------------------
(* Promises, futures, packaged tasks.  A handle refers to a shared state   *)
(* by its index (0: none).  A shared state is  [s, v]  with                *)
(* s \in {"unset", "val", "exc", "broken"}.                                *)
Unset == [s |-> "unset", v |-> 0]
NewState(s) == [s EXCEPT !.st = Append(@, Unset)]
\* the promise / task i lets go of its shared state
Abandon(s, i) ==
  LET h == s.o[i] IN
  IF h.s # 0 /\ h.got /\ s.st[h.s].s = "unset" THEN [s EXCEPT !.st[h.s].s = "broken"] ELSE s
Outcome(st) == CASE st.s = "val" -> <<"ok", st.v>> [] st.s = "exc" -> <<"exc", st.v>> [] st.s = "broken" -> <<"broken", 0>>

ProviderSteps(s, f, t) ==
  LET q == s.p[f]  i == q.o  h == s.o[i]  satisfied == h.s # 0 /\ s.st[h.s].s # "unset" IN
  CASE q.op = "getf" ->
         IF h.got THEN {Fin(s, f, "retrieved", 0)}
         ELSE IF h.s = 0 THEN {Fin(s, f, "nostate", 0)}
         ELSE {Fin([s EXCEPT !.o[i].got = TRUE, !.o[q.a].s = h.s], f, "ok", 0)}
    [] q.op \in {"setv", "setx"} ->
         IF h.s = 0 THEN {Fin(s, f, "nostate", 0)}
         ELSE IF satisfied THEN {Fin(s, f, "satisfied", 0)}
         ELSE {Fin([s EXCEPT !.st[h.s] = [s |-> IF q.op = "setv" THEN "val" ELSE "exc", v |-> q.a]], f, "ok", 0)}
    [] q.op = "pdrop" -> {Fin([Abandon(s, i) EXCEPT !.o[i].s = 0, !.o[i].got = FALSE], f, "ok", 0)}
    [] q.op = "pmove" ->
         {Fin([Abandon(s, q.a) EXCEPT !.o[q.a] = h, !.o[i].s = 0, !.o[i].got = FALSE], f, "ok", 0)}
    [] q.op = "pswap" -> {Fin([s EXCEPT !.o[q.a] = h, !.o[i] = s.o[q.a]], f, "ok", 0)}
    [] q.op = "ptmake" ->
         {Fin([NewState(Abandon(s, i)) EXCEPT !.o[i].s = Len(s.st) + 1, !.o[i].got = FALSE,
                                              !.o[i].v = q.a, !.o[i].thr = q.b], f, "ok", 0)}
    [] q.op = "ptvalid" -> {Fin(s, f, IF h.s = 0 THEN "false" ELSE "true", 0)}
    [] q.op = "ptrun" ->
         IF h.s = 0 THEN {Fin(s, f, "nostate", 0)}
         ELSE IF satisfied THEN {Fin(s, f, "satisfied", 0)}
         ELSE {Fin([s EXCEPT !.st[h.s] = [s |-> IF h.thr = 1 THEN "exc" ELSE "val", v |-> h.v]], f, "ok", 0)}
    [] q.op = "ptreset" ->
         IF h.s = 0 THEN {Fin(s, f, "nostate", 0)}
         ELSE {Fin([NewState(Abandon(s, i)) EXCEPT !.o[i].s = Len(s.st) + 1, !.o[i].got = FALSE], f, "ok", 0)}
    \* the function of async() has returned: its result becomes available
    [] q.op = "asyncres" -> {[s EXCEPT !.st[q.a] = [s |-> IF q.b = 1 THEN "exc" ELSE "val", v |-> q.x], !.p[f] = Idle]}

FutSteps(s, f, t) ==
  LET q == s.p[f]  i == q.o  h == s.o[i]
      st == s.st[h.s]  ready == st.s # "unset" IN
  CASE q.op = "fvalid" -> {Fin(s, f, IF h.s = 0 THEN "false" ELSE "true", 0)}
    [] q.op = "fmove" -> {Fin([s EXCEPT !.o[q.a].s = h.s, !.o[i].s = 0], f, "ok", 0)}
    [] q.op = "scopy" -> {Fin([s EXCEPT !.o[q.a].s = h.s], f, "ok", 0)}
    [] q.op = "fdrop" -> {Fin([s EXCEPT !.o[i].s = 0], f, "ok", 0)}
    [] q.op = "share" ->
         IF h.s = 0 THEN {Fin(s, f, "nostate", 0)}
         ELSE {Fin([s EXCEPT !.o[q.a].s = h.s, !.o[i].s = 0], f, "ok", 0)}
    [] h.s = 0 -> {Fin(s, f, "nostate", 0)}
    [] q.op = "fget" -> IF ready THEN {Fin([s EXCEPT !.o[i].s = 0], f, Outcome(st)[1], Outcome(st)[2])} ELSE {}
    [] q.op = "sget" -> IF ready THEN {Fin(s, f, Outcome(st)[1], Outcome(st)[2])} ELSE {}
    [] q.op = "fwait" -> IF ready THEN {Fin(s, f, "ok", 0)} ELSE {}
    [] q.op = "fgetx" -> IF ready THEN {IF st.s = "val" THEN Fin(s, f, "none", 0) ELSE Fin(s, f, Outcome(st)[1], Outcome(st)[2])} ELSE {}
    [] q.op = "fwaitu" -> IF ready THEN {Fin(s, f, "ready", 0)}
                          ELSE IF t >= q.b THEN {Fin(s, f, "timeout", 0)} ELSE {}

-----------------------------------------------------------------------------
(* Fibers.  life: "none", "new" (launched), "run", "end".                  *)
LifeSteps(s, f, t) ==
  LET q == s.p[f]  g == q.o IN
  CASE q.op \in {"fork", "async"} ->
         \* launch::dispatch enters the new fiber at once; a launching fiber
         \* that may migrate goes on while the new one runs
         IF (q.op = "fork" /\ q.a = 0) \/ (q.op = "async" /\ q.b < 2) \/ s.fib[g].life \in {"run", "end"} \/ s.mig = 1
         THEN {Fin(s, f, "ok", 0)} ELSE {}
    [] q.op = "join" ->
         IF ~ s.fib[g].h THEN {Fin(s, f, "inval", 0)}
         ELSE IF f = g THEN {Fin(s, f, "deadlk", 1)}
         ELSE IF s.fib[g].life = "end" THEN {Fin([s EXCEPT !.fib[g].h = FALSE], f, "ok", 0)} ELSE {}
    [] q.op = "detach" ->
         IF s.fib[g].h THEN {Fin([s EXCEPT !.fib[g].h = FALSE], f, "ok", 0)} ELSE {Fin(s, f, "inval", 0)}
    [] q.op \in {"joinable", "move"} -> {Fin(s, f, "ok", IF s.fib[g].h THEN 1 ELSE 0)}
    [] q.op = "sleep" -> IF t >= q.a THEN {Fin(s, f, "ok", 0)} ELSE {}
    [] q.op = "setprio" -> {Fin([s EXCEPT !.fib[g].pr = q.a], f, "ok", 0)}
    [] q.op = "getprio" -> {Fin(s, f, "ok", s.fib[f].pr)}
    [] q.op = "hasready" -> {Fin(s, f, "ok", 0), Fin(s, f, "ok", 1)}
    [] OTHER -> {Fin(s, f, "ok", 0)}        \* yield, myid, swalgo

(* Fiber specific pointers: one value per fiber.  Setting a new value      *)
(* needs the clean-up of the old one (an event of its own) before.         *)
FssSteps(s, f, t) ==
  LET q == s.p[f]  i == q.o  m == s.o[i].m IN
  CASE q.op = "fset" -> IF m[f] = 0 THEN {Fin([s EXCEPT !.o[i].m[f] = q.a], f, "ok", 0)} ELSE {}
    [] q.op = "fdel" -> IF m[f] = 0 THEN {Fin(s, f, "ok", 0)} ELSE {}
    [] q.op = "fsget" -> {Fin(s, f, "ok", m[f])}
    [] q.op = "fsame" -> {Fin(s, f, "ok", 0)}
    [] q.op = "frel" -> {Fin([s EXCEPT !.o[i].m[f] = 0], f, "ok", m[f])}
\* a clean-up of value v of object i, run by fiber f: the old value while
\* it is replaced, or any value of a fiber that has ended
CleanOk(s, i, v, f) ==
  /\ i \in DOMAIN s.o /\ s.o[i].k = "fss" /\ f \in DOMAIN s.fib
  /\ v # 0 /\ s.o[i].m[f] = v
  /\ \/ Pending(s, f, {"fset", "fdel"}, i)
     \/ s.fib[f].life = "end"
Clean(s, i, f) == [s EXCEPT !.o[i].m[f] = 0]

(* The ready queues themselves.  spmc: the owner takes the youngest, a     *)
(* thief the oldest element; spq: always the oldest.                       *)
Pinned == 100     \* values from here on: contexts that must stay on their thread
QueueOps == {"qput", "qget", "qsteal"}
QueueSteps(s, f, t) ==
  LET q == s.p[f]  i == q.o  x == s.o[i].q  n == Len(x)
      race == Others(s, f, QueueOps, i) IN
  CASE q.op = "qput" -> {Fin([s EXCEPT !.o[i].q = Append(@, q.a)], f, "ok", 0)}
    [] q.op = "qempty" -> {Fin(s, f, IF n = 0 THEN "true" ELSE "false", 0)}
                          \cup (IF race THEN {Fin(s, f, "true", 0), Fin(s, f, "false", 0)} ELSE {})
    [] OTHER ->
         (IF n = 0 \/ (q.op = "qsteal" /\ x[1] >= Pinned) THEN {Fin(s, f, "empty", 0)}
          ELSE IF q.op = "qget" /\ s.o[i].k = "spmc"
               THEN {Fin([s EXCEPT !.o[i].q = SubSeq(x, 1, n - 1)], f, "ok", x[n])}
               ELSE {Fin([s EXCEPT !.o[i].q = Tail(x)], f, "ok", x[1])})
         \cup (IF race THEN {Fin(s, f, "empty", 0)} ELSE {})

-----------------------------------------------------------------------------
FutOps == {"fvalid", "fmove", "scopy", "fdrop", "share", "fget", "sget", "fwait", "fgetx", "fwaitu"}
ProviderOps == {"getf", "setv", "setx", "pdrop", "pmove", "pswap", "ptmake", "ptvalid", "ptrun", "ptreset", "asyncres"}
LifeOps == {"fork", "async", "join", "detach", "joinable", "move", "sleep", "setprio", "getprio", "hasready", "yield", "myid", "swalgo"}
FssOps == {"fset", "fdel", "fsget", "fsame", "frel"}
TimedOps == {"tlock", "waitu", "waitpu", "pushu", "popu", "fwaitu", "sleep"}

Steps(s, f, t) ==
  LET q == s.p[f] IN
  IF q.ph \in {"idle", "done"} THEN {}
  ELSE CASE q.op \in LifeOps -> LifeSteps(s, f, t)
         [] q.op \in FutOps -> FutSteps(s, f, t)
         [] q.op \in ProviderOps -> ProviderSteps(s, f, t)
         [] q.op \in FssOps -> FssSteps(s, f, t)
         [] OTHER ->
            LET k == s.o[q.o].k IN
            CASE k \in {"mutex", "rmutex", "tmutex", "rtmutex", "spin"} -> MutexSteps(s, f, t)
              [] k = "var" -> VarSteps(s, f, t)
              [] k \in {"cv", "cvany"} -> CvSteps(s, f, t)
              [] k = "barrier" -> BarSteps(s, f, t)
              [] k = "bch" -> BchSteps(s, f, t)
              [] k = "uch" -> UchSteps(s, f, t)
              [] k \in {"spmc", "spq"} -> QueueSteps(s, f, t)

(* A call: the operation becomes pending.                                  *)
Call(s, f, op, o, a, b) ==
  LET q == Pend(op, o, a, b)
      s1 == [s EXCEPT !.p[f] = q] IN
  CASE op = "fork" -> [s1 EXCEPT !.fib[o].life = "new", !.fib[o].h = TRUE, !.fib[o].pr = b]
    [] op = "async" -> [NewState(s1) EXCEPT !.fib[o].life = "new", !.fib[o].as = Len(s.st) + 1, !.fib[o].am = b % 2,
                                           !.fib[o].av = IF s.o[a].ty = 1 /\ b % 2 = 0 THEN 0 ELSE o,
                                           !.o[a].s = Len(s.st) + 1]
    [] op \in {"push", "pushu"} /\ s.o[o].k = "uch" /\ s.o[o].cl -> [s1 EXCEPT !.p[f].x = 1]
    [] OTHER -> s1

(* Initial abstract object of a declaration <<kind, a, b>>.                *)
MkObj(d, fibers, n) ==
  LET k == d[1] IN
  CASE k \in {"mutex", "rmutex", "tmutex", "rtmutex", "spin"} -> [k |-> k, own |-> 0, cnt |-> 0]
    [] k = "var" -> [k |-> k, v |-> 0]
    [] k \in {"cv", "cvany"} -> [k |-> k, w |-> {}]
    [] k = "barrier" -> [k |-> k, n |-> d[2], c |-> 0, g |-> 0]
    [] k = "bch" -> [k |-> k, cap |-> d[2], q |-> << >>, cl |-> FALSE]
    [] k = "uch" -> [k |-> k, cl |-> FALSE]
    [] k = "prom" -> [k |-> k, s |-> n, got |-> FALSE]
    [] k = "pt" -> [k |-> k, s |-> 0, got |-> FALSE, v |-> 0, thr |-> 0]
    [] k \in {"fut", "sfut"} -> [k |-> k, s |-> 0, ty |-> d[2]]
    [] k = "fss" -> [k |-> k, m |-> [f \in fibers |-> 0]]
    [] k \in {"spmc", "spq"} -> [k |-> k, q |-> << >>]
\* every promise starts with a shared state of its own: number n is its rank
Rank(decls, i) == Cardinality({j \in 1..i : decls[j][1] = "prom"})
InitState(decls, nfib, nthr, mig) ==
  [mig |-> mig,
   o |-> [i \in 1..Len(decls) |-> MkObj(decls[i], 1..nfib, Rank(decls, i))],
   p |-> [f \in 1..nfib |-> Idle],
   fib |-> [f \in 1..nfib |-> [life |-> IF f <= nthr THEN "new" ELSE "none", h |-> FALSE, pr |-> 0, as |-> 0, am |-> 0, av |-> 0]],
   st |-> [i \in 1..Rank(decls, Len(decls)) |-> Unset]]
=============================================================================
