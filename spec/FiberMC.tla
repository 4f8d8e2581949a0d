------------------------------- MODULE FiberMC -------------------------------
(***************************************************************************)
(* FiberAPI, closed with clients: a family fixes the objects, the number   *)
(* of fibers and the menu of operations; every fiber may call anything of  *)
(* the menu whenever it has no pending operation.  Two uses:               *)
(*   MODE = "mc"    all interleavings of calls, atomic steps and returns;  *)
(*                  the listed properties are checked as invariants of     *)
(*                  what the clients see                                   *)
(*   MODE = "tour"  a call is made only when nothing else can move; every  *)
(*                  transition that is a call is printed with the shortest *)
(*                  sequence of calls that leads to it.  These behaviours  *)
(*                  are replayed into the library.                         *)
(***************************************************************************)
EXTENDS FiberAPI, TLC, TLCExt, IOUtils

Fam  == IOEnv.FAM
Mode == IOEnv.MODE
Max  == atoi(IOEnv.LEN)

M(op, o) == <<op, o, 0, 0>>
Locks(k) == [d |-> <<<<k, 0, 0>>, <<"var", 0, 0>>>>, n |-> 3,
             menu |-> {M("lock", 1), M("trylock", 1), M("unlock", 1), <<"inc", 2, 1, 0>>}
                      \cup (IF k \in {"tmutex", "rtmutex"} THEN {<<"tlock", 1, -1, 0>>, <<"tlock", 1, 2, 0>>, M("pass", 3)} ELSE {})]
Cvs(cv, m) == [d |-> <<<<m, 0, 0>>, <<cv, 0, 0>>, <<"var", 0, 0>>>>, n |-> 3,
               menu |-> {M("lock", 1), M("unlock", 1), <<"wait", 2, 1, 0>>, <<"waitu", 2, 1, 2>>, <<"waitp", 2, 1, 3>>, <<"waitpu", 2, 1, 3002>>,
                         M("n1", 2), M("na", 2), <<"set", 3, 1, 1>>, <<"set", 3, 1, 0>>, M("pass", 3)}]
CvPlain == [Cvs("cv", "mutex") EXCEPT !.menu = @ \ {<<"waitp", 2, 1, 3>>, <<"waitpu", 2, 1, 3002>>, <<"set", 3, 1, 1>>, <<"set", 3, 1, 0>>}]
Bars(n, k) == [d |-> <<<<"barrier", n, 0>>>>, n |-> k, menu |-> {M("bwait", 1)}]
Chan(kind, cap, n) == [d |-> <<<<kind, cap, 0>>>>, n |-> n,
                 menu |-> {M("push", 1), <<"pushu", 1, 0, 4>>, M("pop", 1), M("vpop", 1), <<"popu", 1, 2, 0>>, M("close", 1), M("closed", 1), M("pass", 3)}
                          \cup (IF kind = "bch" THEN {M("trypush", 1), M("trypop", 1)} ELSE {})]
Fams(x) ==
  CASE x = "mutex" -> Locks("mutex") [] x = "rmutex" -> Locks("rmutex") [] x = "tmutex" -> Locks("tmutex") [] x = "rtmutex" -> Locks("rtmutex")
    [] x = "cv" -> Cvs("cv", "mutex") [] x = "cvany" -> Cvs("cvany", "rmutex") [] x = "cvp" -> CvPlain
    [] x = "bar1" -> Bars(1, 2) [] x = "bar2" -> Bars(2, 3) [] x = "bar3" -> Bars(3, 4)
    [] x = "bch2" -> Chan("bch", 2, 3) [] x = "bch4" -> Chan("bch", 4, 3) [] x = "uch" -> Chan("uch", 0, 3)
    [] x = "prom" -> [d |-> <<<<"prom", 0, 0>>, <<"prom", 0, 0>>, <<"fut", 0, 0>>>>, n |-> 2,
                      menu |-> {<<"getf", 1, 3, 0>>, <<"setv", 1, 0, 0>>, <<"setx", 1, 0, 0>>, M("pdrop", 1), <<"pmove", 1, 2, 0>>, <<"pmove", 2, 1, 0>>,
                                <<"pswap", 1, 2, 0>>, <<"setv", 2, 0, 0>>, M("pdrop", 2), <<"getf", 2, 3, 0>>,
                                M("fget", 3), M("fwait", 3), M("fgetx", 3), M("fvalid", 3), <<"fwaitu", 3, 2, 0>>, M("fdrop", 3), M("pass", 3)}]
    [] x = "fut" -> [d |-> <<<<"prom", 0, 0>>, <<"fut", 0, 0>>, <<"fut", 0, 0>>>>, n |-> 3,
                      menu |-> {<<"getf", 1, 2, 0>>, <<"setv", 1, 0, 0>>, <<"setx", 1, 0, 0>>, M("pdrop", 1),
                                M("fget", 2), M("fwait", 2), M("fgetx", 2), M("fvalid", 2), <<"fwaitu", 2, 2, 0>>, M("fdrop", 2), <<"fmove", 2, 3, 0>>, <<"fmove", 3, 2, 0>>,
                                M("fget", 3), M("fwait", 3), M("pass", 3)}]
    [] x = "sfut" -> [d |-> <<<<"prom", 0, 0>>, <<"fut", 0, 0>>, <<"sfut", 0, 0>>, <<"sfut", 0, 0>>>>, n |-> 3,
                      menu |-> {<<"getf", 1, 2, 0>>, <<"setv", 1, 0, 0>>, <<"setx", 1, 0, 0>>, M("pdrop", 1), <<"share", 2, 3, 0>>, <<"share", 2, 3, 1>>, M("fvalid", 2),
                                <<"scopy", 3, 4, 0>>, <<"scopy", 3, 4, 1>>, M("fget", 3), M("fget", 4), M("fwait", 3), M("fgetx", 4), <<"fwaitu", 4, 2, 0>>,
                                M("fdrop", 3), <<"fmove", 4, 3, 0>>, M("fvalid", 4), M("pass", 3)}]
    [] x = "task" -> [d |-> <<<<"pt", 0, 0>>, <<"pt", 0, 0>>, <<"fut", 0, 0>>>>, n |-> 2,
                      menu |-> {<<"ptmake", 1, 0, 0>>, <<"ptmake", 1, 0, 1>>, <<"ptmake", 2, 0, 2>>, <<"getf", 1, 3, 0>>, <<"getf", 2, 3, 0>>,
                                M("ptrun", 1), M("ptrun", 2), M("ptreset", 1), M("ptvalid", 1), M("pdrop", 1), <<"pmove", 2, 1, 0>>, <<"pswap", 1, 2, 0>>,
                                M("fget", 3), M("fwait", 3), M("fgetx", 3), M("fvalid", 3), <<"fwaitu", 3, 2, 0>>, M("pass", 3)}]
    [] x = "life" -> [d |-> << >>, n |-> 4,
                      menu |-> {<<"fork", g, p, 0>> : g \in 2..4, p \in 0..1} \cup {M(op, g) : op \in {"join", "detach", "move", "joinable"}, g \in 2..4}
                               \cup {M("myid", 0), M("sleep", 2), M("pass", 3)}]
    [] x = "async" -> [d |-> <<<<"fut", 0, 0>>, <<"fut", 0, 0>>>>, n |-> 3,
                      menu |-> {<<"async", g, g - 1, p>> : g \in 2..3, p \in 0..3} \cup {M(op, u) : op \in {"fget", "fwait", "fgetx", "fvalid"}, u \in 1..2}]
    [] x = "sleep" -> [d |-> <<<<"mutex", 0, 0>>>>, n |-> 4, menu |-> {M("sleep", 0), M("sleep", 2), M("sleep", 4), M("sleep", 5), M("sleep", -3), M("lock", 1), M("unlock", 1), M("pass", 3)}]
    [] x = "fss" -> [d |-> <<<<"fss", 0, 0>>, <<"fss", 1, 0>>>>, n |-> 3,
                      menu |-> {M(op, o) : op \in {"fget", "fset", "fnull", "fsame", "frel"}, o \in 1..2} \cup {M("yield", 0)}]
F == Fams(Fam)

ASSUME Mode = "tour" => PrintT(ToString(<<"FAM", F.d, F.n>>))

VARIABLES s, t, h, g
\* s, t: as in FiberAPI; h: the calls so far; g: what the clients have seen
vars == <<s, t, h, g>>
Fibers == 1..F.n
Dynamic == Fam \in {"life", "async"}

G0 == [held |-> [f \in Fibers |-> 0], sent |-> {}, got |-> {}, lead |-> 0, left |-> 0, val |-> {}, bad |-> FALSE]
Init == /\ t = 0 /\ h = << >> /\ g = G0
        /\ LET s0 == InitState(F.d, F.n, IF Dynamic THEN 1 ELSE F.n, 0) IN
           s = [s0 EXCEPT !.fib = [f \in DOMAIN @ |-> IF Dynamic /\ f > 1 THEN @[f] ELSE [@[f] EXCEPT !.life = "run"]]]

\* the call event of a menu entry: deadlines become absolute, values unique
Val == Len(h) + 1
Args(m) ==
  LET op == m[1] o == m[2] a == m[3] b == m[4] IN
  CASE op = "tlock" -> <<op, o, t + a, 0>>
    [] op = "waitu" -> <<op, o, a, t + b>>
    [] op = "waitpu" -> <<op, o, a + 1000 * (b \div 1000), t + (b % 1000)>>
    [] op = "waitp" -> <<op, o, a, b>>
    [] op \in {"push", "trypush"} -> <<op, o, IF Mode = "tour" THEN 0 ELSE Val, 0>>
    [] op = "pushu" -> <<op, o, IF Mode = "tour" THEN 0 ELSE Val, t + (b \div 2)>>
    [] op = "popu" -> <<op, o, 0, t + a>>
    [] op = "fwaitu" -> <<op, o, 0, t + a>>
    [] op = "sleep" -> <<op, 0, t + o, 0>>
    [] op \in {"setv", "setx"} -> <<op, o, IF Mode = "tour" THEN 0 ELSE Val, 0>>
    [] op = "ptmake" -> <<op, o, IF Mode = "tour" THEN 0 ELSE Val, b % 2>>
    [] op = "fset" -> <<op, o, Val, 0>>
    [] op = "fnull" -> <<"fset", o, 0, 0>>
    [] op = "fget" -> <<CASE F.d[o][1] = "sfut" -> "sget" [] F.d[o][1] = "fss" -> "fsget" [] OTHER -> "fget", o, 0, 0>>
    [] op \in {"inc", "get"} -> <<op, o, 0, 0>>
    [] op = "set" -> <<op, o, b, 0>>
    [] OTHER -> <<op, o, a, b>>

\* what a client has to observe (preconditions of the library)
Shareable == {"fwait", "fwaitu", "fgetx", "sget"}
Handles(q) == {q.o} \cup (IF q.op \in {"getf", "pmove", "pswap", "fmove", "share", "scopy"} THEN {q.a} ELSE {})
Exclusive(f, op, H) == \A x \in Fibers \ {f} :
    s.p[x].ph = "idle" \/ H \cap Handles(s.p[x]) = {} \/ (op \in Shareable /\ s.p[x].op \in Shareable)
Pre(f, m) ==
  LET op == m[1] o == m[2] a == m[3] IN
  CASE op \in {"wait", "waitu", "waitp", "waitpu", "inc", "set", "get"} -> s.o[a].own = f
    [] op = "fork" -> s.fib[o].life = "none" /\ f # o
    [] op = "async" -> s.fib[o].life = "none" /\ s.o[a].s = 0 /\ Exclusive(f, "async", {a})
    [] op \in {"join", "detach", "move", "joinable"} ->
         s.fib[o].life # "none" /\ \A x \in Fibers : s.p[x].ph # "idle" => ~ (s.p[x].op \in {"join", "detach", "move", "joinable", "fork"} /\ s.p[x].o = o)
    [] op \in FutOps -> Exclusive(f, IF op = "fget" /\ F.d[o][1] = "sfut" THEN "sget" ELSE op, {o} \cup IF op \in {"fmove", "share", "scopy"} THEN {a} ELSE {})
    [] op \in ProviderOps -> /\ Exclusive(f, op, {o} \cup IF op \in {"getf", "pmove", "pswap"} THEN {a} ELSE {})
                             \* a provider which was destroyed is not used again
                             /\ \A k \in 1..Len(h) : h[k][2] = "pdrop" => h[k][3] \notin {o} \cup IF op \in {"pmove", "pswap"} THEN {a} ELSE {}
    [] OTHER -> TRUE

Enabled(f) == Steps(s, f, t) # {}
Moves == \/ \E f \in Fibers : s.p[f].ph = "done" \/ Enabled(f)
         \/ \E f \in Fibers : s.fib[f].life = "new"
         \/ \E i \in DOMAIN s.o, f \in Fibers : s.o[i].k = "fss" /\ CleanOk(s, i, s.o[i].m[f], f)
Tour == Mode = "tour"

\* what the clients see at a return
SeeRet(f) ==
  LET q == s.p[f] IN
  CASE q.op \in LockOps /\ q.r \in {"ok", "true"} ->
         [g EXCEPT !.held[f] = @ + 1]
    [] q.op \in CvWaits -> [g EXCEPT !.held[f] = @ + 1, !.bad = @ \/ (q.op \in {"waitp", "waitpu"} /\ q.r \in {"ok", "true"} /\ s.o[PredVar(q)].v = 0)
                                                              \/ (q.r \in {"timeout", "false"} /\ t < q.b)]
    [] q.op \in PushOps /\ q.r = "ok" -> [g EXCEPT !.sent = @ \cup {q.a}]
    [] q.op \in PushOps /\ q.r # "ok" -> [g EXCEPT !.bad = @ \/ q.a \in g.got \/ (q.r = "timeout" /\ t < q.b)]
    [] q.op \in PopOps /\ q.r = "ok" -> [g EXCEPT !.got = @ \cup {q.v}, !.bad = @ \/ q.v \in g.got]
    [] q.op \in PopOps /\ q.r = "timeout" -> [g EXCEPT !.bad = @ \/ t < q.b]
    [] q.op = "bwait" -> IF q.r = "true" THEN [g EXCEPT !.lead = @ + 1, !.left = @ + 1] ELSE [g EXCEPT !.left = @ + 1]
    [] q.op \in {"fget", "sget", "fgetx"} /\ q.r \in {"ok", "exc"} -> [g EXCEPT !.val = @ \cup {q.v}]
    [] q.op = "fwaitu" /\ q.r = "timeout" -> [g EXCEPT !.bad = @ \/ t < q.b]
    [] q.op = "tlock" /\ q.r = "false" -> [g EXCEPT !.bad = @ \/ t < q.a]
    [] q.op = "sleep" -> [g EXCEPT !.bad = @ \/ t < q.a]
    [] q.op = "join" /\ q.r = "ok" -> [g EXCEPT !.bad = @ \/ s.fib[q.o].life # "end"]
    [] OTHER -> g
SeeCall(f, a) ==
  CASE a[1] = "unlock" /\ s.o[a[2]].own = f -> [g EXCEPT !.held[f] = @ - 1]
    [] a[1] \in CvWaits -> [g EXCEPT !.held[f] = @ - 1]
    [] OTHER -> g

Do(f, m) ==
  /\ s.fib[f].life = "run" /\ s.p[f].ph = "idle"
  /\ Len(h) < Max
  /\ Tour => ~ Moves
  /\ Pre(f, m)
  /\ h' = Append(h, <<f, m[1], m[2], m[3], m[4]>>)
  /\ IF m[1] = "pass" THEN t' = t + m[2] /\ UNCHANGED <<s, g>>
     ELSE LET a == Args(m) IN s' = Call(s, f, a[1], a[2], a[3], a[4]) /\ g' = SeeCall(f, a) /\ t' = t
\* only the first idle fiber lets time pass: it does not matter who does
Passer(f) == ~ \E x \in Fibers : x < f /\ s.fib[x].life = "run" /\ s.p[x].ph = "idle"
First(f) == ~ \E x \in Fibers : x < f /\ s.p[x].ph = "done"
Ret(f) == /\ s.p[f].ph = "done" /\ (Tour => First(f))
          /\ s' = [s EXCEPT !.p[f] = Idle] /\ g' = (IF Tour THEN g ELSE SeeRet(f)) /\ UNCHANGED <<t, h>>
NoDone == \A f \in Fibers : s.p[f].ph # "done"
Step(f) == /\ Tour => NoDone
           /\ s' \in Steps(s, f, t) /\ UNCHANGED <<t, h, g>>
Entered(f) == \A x \in Fibers : Pending(s, x, {"fork", "async"}, f) => (s.p[x].op = "fork" /\ s.p[x].a # 0) \/ (s.p[x].op = "async" /\ s.p[x].b >= 2)
Beg(f) == /\ s.fib[f].life = "new" /\ Entered(f)
          /\ s' = [s EXCEPT !.fib[f].life = "run"] /\ UNCHANGED <<t, h, g>>
End(f) == /\ Dynamic \/ Fam = "fss"
          /\ f > 1 /\ s.fib[f].life = "run" /\ s.p[f].ph = "idle" /\ Len(h) < Max
          /\ Tour => ~ Moves
          /\ h' = Append(h, <<f, "fin", 0, 0, 0>>)
          /\ s' = LET fb == s.fib[f] IN
                  IF fb.as = 0 THEN [s EXCEPT !.fib[f].life = "end"]
                  ELSE [s EXCEPT !.fib[f].life = "end", !.p[f] = [Pend("asyncres", 0, fb.as, fb.am) EXCEPT !.x = fb.av]]
          /\ UNCHANGED <<t, g>>
Cleanup(i, f) == /\ s.o[i].k = "fss" /\ CleanOk(s, i, s.o[i].m[f], f)
                 /\ s' = Clean(s, i, f) /\ UNCHANGED <<t, h, g>>
Next == \/ \E f \in Fibers : Ret(f) \/ Step(f) \/ Beg(f) \/ End(f)
        \/ \E f \in Fibers, m \in F.menu : (m[1] = "pass" => Passer(f)) /\ Do(f, m)
        \/ \E i \in DOMAIN s.o, f \in Fibers : Cleanup(i, f)
Spec == Init /\ [][Next]_vars
\* every step that does not depend on the will of a client is taken in the end
Fair == /\ \A f \in Fibers : WF_vars(Ret(f)) /\ WF_vars(Step(f)) /\ WF_vars(Beg(f))
        /\ \A i \in DOMAIN F.d, f \in Fibers : WF_vars(Cleanup(i, f))
LSpec == Spec /\ Fair

-----------------------------------------------------------------------------
(* Bounds and views.                                                       *)
Rel(d) == IF d <= t THEN -1 ELSE d - t
RelP(q) == CASE q.op \in {"tlock", "sleep"} -> [q EXCEPT !.a = Rel(q.a)]
             [] q.op \in {"waitu", "waitpu", "pushu", "popu", "fwaitu"} -> [q EXCEPT !.b = Rel(q.b)]
             [] OTHER -> q
View == <<s.o, [f \in Fibers |-> RelP(s.p[f])], s.fib, s.st>>
MCView == <<s, t, g, Len(h)>>
Edge == (Tour /\ h' # h) => PrintT(ToString(h'))

-----------------------------------------------------------------------------
(* The listed properties, as invariants of the specification.              *)
Obj(k) == {i \in DOMAIN s.o : s.o[i].k \in k}
Kinds == {"mutex", "rmutex", "tmutex", "rtmutex"}
NothingBad == ~ g.bad
\* M01
Exclusion == \A f1, f2 \in Fibers : g.held[f1] > 0 /\ g.held[f2] > 0 => f1 = f2
OwnerSees == \A i \in Obj(Kinds) : \A f \in Fibers : g.held[f] > 0 => s.o[i].own = f /\ s.o[i].cnt >= g.held[f]
\* M02: nobody waits for a free mutex
FreeTaken == \A i \in Obj(Kinds) : s.o[i].own = 0 => \A f \in Fibers : Pending(s, f, LockOps, i) => Enabled(f)
\* M03, S03, ...: past its deadline a timed operation can always move, or waits for the mutex of a wait
Deadline(q) == IF q.op \in {"tlock", "sleep"} THEN q.a ELSE q.b
Timely == \A f \in Fibers : s.p[f].ph \notin {"idle", "done"} /\ s.p[f].op \in TimedOps /\ t >= Deadline(s.p[f])
             => Enabled(f) \/ (s.p[f].op \in CvWaits /\ s.p[f].ph \in {"k", "t"}) \/ (s.p[f].op \in {"popu", "pushu"} /\ Enabled(f))
\* C01, C02
Waiters == \A c \in Obj({"cv", "cvany"}) : \A f \in Fibers :
              /\ f \in s.o[c].w <=> (s.p[f].op \in CvWaits /\ s.p[f].ph = "w")
              /\ f \in s.o[c].w /\ s.o[CvMutex(s.p[f])].k \in {"mutex", "tmutex"} => g.held[f] = 0
Woken == \A f \in Fibers : s.p[f].op \in CvWaits /\ s.p[f].ph \in {"k", "t"} /\ s.o[CvMutex(s.p[f])].own \in {0, f} => Enabled(f)
\* B01: nobody is left behind, one leader for every complete round
Rounds == \A b \in Obj({"barrier"}) : /\ g.lead <= s.o[b].g /\ g.left <= s.o[b].g * s.o[b].n
                                      /\ s.o[b].c = Cardinality({f \in Fibers : s.p[f].op = "bwait" /\ s.p[f].ph = "w" /\ s.p[f].x = s.o[b].g})
                                      /\ (\A f \in Fibers : s.p[f].ph = "idle") => s.o[b].c = 0 /\ g.lead = s.o[b].g
\* Q01, U01: what was sent is delivered or still there, nothing twice, nothing invented
Sending == {s.p[f].a : f \in {x \in Fibers : s.p[x].op \in PushOps /\ s.p[x].ph # "idle"}}
Stored(i) == {s.o[i].q[k] : k \in 1..Len(s.o[i].q)}
Taking == {s.p[f].v : f \in {x \in Fibers : s.p[x].op \in PopOps /\ s.p[x].ph = "done" /\ s.p[x].r = "ok"}}
Conserved == /\ \A i \in Obj({"bch"}) : /\ Len(s.o[i].q) <= s.o[i].cap - 1
                                        /\ g.sent \subseteq g.got \cup Taking \cup Stored(i)
                                        /\ g.got \cup Taking \cup Stored(i) \subseteq g.sent \cup Sending
                                        /\ (g.got \cup Taking) \cap Stored(i) = {}
             /\ \A i \in Obj({"uch"}) : /\ g.sent \subseteq g.got \cup Taking
                                        /\ g.got \cup Taking \subseteq g.sent \cup Sending
\* Q02, Q03, U02: who could go on can go on
Flow == /\ \A i \in Obj({"bch"}) : \A f \in Fibers :
              /\ Pending(s, f, PushOps, i) /\ (s.o[i].cl \/ Len(s.o[i].q) < s.o[i].cap - 1) => Enabled(f)
              /\ Pending(s, f, PopOps, i) /\ (s.o[i].cl \/ s.o[i].q # << >>) => Enabled(f)
        /\ \A i \in Obj({"uch"}) : \A f \in Fibers :
              /\ Pending(s, f, PushOps \cup PopOps, i) /\ s.o[i].cl => Enabled(f)
              /\ Pending(s, f, PopOps, i) /\ (\E x \in Fibers : Pending(s, x, PushOps, i) /\ s.p[x].x = 0) => Enabled(f)
\* F01, F04: one state, one outcome
OneOutcome == Fam \in {"prom", "sfut"} /\ Cardinality({i \in Obj({"prom"}) : TRUE}) = 1 => Cardinality(g.val) <= 1
\* F02
Delivered == \A f \in Fibers : s.p[f].ph = "call" /\ s.p[f].op \in {"fget", "sget", "fwait", "fgetx", "fwaitu"} /\ s.o[s.p[f].o].s # 0
                /\ s.st[s.o[s.p[f].o].s].s # "unset" => Enabled(f)
\* P01: a value is gone or with its owner
Private == \A i \in Obj({"fss"}) : \A f1, f2 \in Fibers : f1 # f2 /\ s.o[i].m[f1] # 0 => s.o[i].m[f1] # s.o[i].m[f2]

\* liveness: every enabled operation returns; in the absence of other calls everybody gets what it waits for
Progress == \A f \in Fibers : (s.p[f].ph = "done") ~> (s.p[f].ph # "done")
Handover == \A f \in Fibers : \A i \in DOMAIN F.d : F.d[i][1] \in Kinds =>
               [](s.p[f].ph = "call" /\ s.p[f].op = "lock" /\ s.p[f].o = i /\ s.o[i].own = 0 ~> s.p[f].ph # "call" \/ s.o[i].own # 0)
Once == [][\A k \in 1..Len(s.st) : s.st[k].s # "unset" => s'.st[k] = s.st[k]]_s
=============================================================================
