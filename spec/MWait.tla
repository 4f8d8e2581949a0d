-------------------------------- MODULE MWait --------------------------------
(***************************************************************************)
(* Mechanism model: how fibers block and wake.  A wait queue protected by  *)
(* a spinlock (here: that of a timed_mutex), wakers with epochs, and per   *)
(* thread: the ready queue with the dispatcher fiber in it, the remote     *)
(* ready queue, the sleep queue and the sleep/notify protocol of the       *)
(* scheduling algorithm.  A suspending fiber's spinlock is released only   *)
(* after the switch, by whoever runs next (resume( lk)).                   *)
(*                                                                         *)
(* Properties M01/M02/M03/S01/S02/S03 at this level: exclusion; a fiber is *)
(* in at most one place (running, ready, remote) - Once; a fiber is only   *)
(* resumed after it was woken - Reason; no reachable deadlock, where every *)
(* fiber wants to lock and unlock - so no wakeup is lost, wherever waiter  *)
(* and waker run and whoever gives up by timeout.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils

Env(k, d) == IF k \in DOMAIN IOEnv THEN IOEnv[k] ELSE d
Variant == Env("VARIANT", "code")
Shape   == Env("SHAPE", "21")           \* fibers on thread 1, on thread 2
Timed   == LET n == atoi(Env("TIMED", "1")) IN IF n = 0 THEN {} ELSE IF n = 1 THEN {1} ELSE IF n = 2 THEN {1, 11} ELSE {1, 2, 11}
Rounds  == atoi(Env("ROUNDS", "1"))
Shapes  == [x \in {"20", "30", "11", "21", "31", "22"} |->
              CASE x = "20" -> <<{1, 2}, {}>> [] x = "30" -> <<{1, 2, 3}, {}>> [] x = "11" -> <<{1}, {11}>>
                [] x = "21" -> <<{1, 2}, {11}>> [] x = "31" -> <<{1, 2, 3}, {11}>> [] x = "22" -> <<{1, 2}, {11, 12}>>]
On(t)   == Shapes[Shape][t]
Fibers  == On(1) \cup On(2)
Threads == {t \in 1..2 : On(t) # {}}
Thr(f)  == IF f \in On(1) THEN 1 ELSE 2
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o SeqOf(S \ {m})
DISP == 0                               \* the dispatcher fiber of a thread

(* --algorithm wait
variables
  splk = 0, owner = 0, wq = <<>>,                         \* the mutex
  epoch = [f \in Fibers |-> 0], sleepw = [f \in Fibers |-> 0],
  due = [f \in Fibers |-> FALSE], late = [f \in Fibers |-> FALSE],
  cur = [x \in 1..2 |-> DISP], pend = [x \in 1..2 |-> 0],  \* pend: the fiber whose switch is not complete
  ready = [x \in 1..2 |-> SeqOf(On(x))], remote = [x \in 1..2 |-> <<>>],
  sleepq = [x \in 1..2 |-> {}], flag = [x \in 1..2 |-> FALSE],
  inside = {}, woken = Fibers, bad = "";

define
  Elems(q) == {q[i] : i \in DOMAIN q}
  Run(f)   == cur[Thr(f)] = f /\ pend[Thr(f)] = 0
  Fault(c, what) == IF c /\ bad = "" THEN what ELSE bad
end define;

\* a switch away from the running fiber; its lock is released by Post
macro switch(f, t) begin
  cur[t] := Head(ready[t]); ready[t] := Tail(ready[t]); pend[t] := f;
end macro;

macro yield(f, t) begin
  cur[t] := Head(ready[t]); ready[t] := Append(Tail(ready[t]), f); pend[t] := f;
end macro;

\* after a switch, on the stack of the next fiber: release the lock, or put the yielding fiber back
process Post \in {201, 202}
variables pt = self - 200;
begin
W: while TRUE do
     await pend[pt] # 0;
     if splk = pend[pt] then splk := 0; end if;
     pend[pt] := 0;
   end while;
end process;

process Clock = 100
begin
K: while TRUE do
     with x \in {y \in Timed \cap Fibers : ~due[y]} do due[x] := TRUE; end with;
   end while;
end process;

process D \in {x + 300 : x \in Threads}
variables dt = self - 300, df = 0;
begin
D0: while TRUE do
      await cur[dt] = DISP /\ pend[dt] = 0;
D1:   \* remote_ready2ready_
      bad := Fault(Elems(remote[dt]) \cap Elems(ready[dt]) # {}, "ready twice");
      ready[dt] := ready[dt] \o remote[dt];
      sleepq[dt] := IF Variant = "sleepstays" THEN sleepq[dt] ELSE sleepq[dt] \ Elems(remote[dt]);
      remote[dt] := <<>>;
D2:   \* sleep2ready_, one context at a time
      while \E x \in sleepq[dt] : due[x] do
        with x \in {y \in sleepq[dt] : due[y]} do df := x; sleepq[dt] := sleepq[dt] \ {x}; end with;
D3:     if epoch[df] = sleepw[df] \/ Variant = "noepoch" then
          epoch[df] := epoch[df] + 1; late[df] := TRUE; woken := woken \cup {df};
          bad := Fault(df \in Elems(ready[dt]), "ready twice");
          ready[dt] := Append(ready[dt], df);
        end if;
      end while;
D4:   if ready[dt] # <<>> then
        cur[dt] := Head(ready[dt]);
        ready[dt] := Append(Tail(ready[dt]), DISP);
      else
        if Variant = "flagfirst" then flag[dt] := FALSE; end if;
D5:     await flag[dt] \/ (\E x \in sleepq[dt] : due[x] /\ Variant # "nodeadline");
        flag[dt] := FALSE;
      end if;
    end while;
end process;

process F \in Fibers
variables n = 0, res = "", w = <<>>, t = Thr(self);
begin
B0: while n < Rounds do
      await Run(self);
      n := n + 1; res := "";
L0:   while res = "" do
        await Run(self) /\ splk = 0; splk := self;
L1:     if owner = 0 then
          owner := self; res := "locked"; splk := 0;
        elsif self \in Timed /\ due[self] then
          res := "timeout"; splk := 0;
        else
          epoch[self] := epoch[self] + 1;
          wq := Append(wq, <<self, epoch[self]>>);
          woken := woken \ {self}; late[self] := FALSE;
          if self \in Timed then
            bad := Fault(self \in sleepq[t], "sleeps twice");
            sleepw[self] := epoch[self]; sleepq[t] := sleepq[t] \cup {self};
          end if;
L2:       switch(self, t);
L3:       await Run(self);
          bad := Fault(self \notin woken, "resumed without a reason");
          if late[self] \/ (Variant = "swallow" /\ self \in Timed /\ due[self]) then
L4:         while splk # 0 do     \* if ( ! try_lock) yield
              yield(self, t);
L6:           await Run(self);
            end while;
            wq := SelectSeq(wq, LAMBDA x : x[1] # self);
            res := "timeout";
          end if;
        end if;
      end while;
C0:   if res = "locked" then
        inside := inside \cup {self};
        either skip; or
          \* gives up its thread while it owns the mutex
CY:       yield(self, t);
CR:       await Run(self);
        end either;
C1:     inside := inside \ {self};
U0:     await splk = 0; splk := self;
U1:     owner := 0;
U2:     while wq # <<>> do
          w := Head(wq); wq := Tail(wq);
U3:       if epoch[w[1]] = w[2] \/ Variant = "noepoch" then
            epoch[w[1]] := w[2] + 1;
            woken := woken \cup {w[1]};
U4:         if Thr(w[1]) = t then
              sleepq[t] := IF Variant = "sleepstays" THEN sleepq[t] ELSE sleepq[t] \ {w[1]};
              bad := Fault(w[1] \in Elems(ready[t]) \cup {cur[t]}, "ready twice");
              ready[t] := Append(ready[t], w[1]);
            else
              bad := Fault(w[1] \in Elems(remote[Thr(w[1])]), "remote twice");
              remote[Thr(w[1])] := Append(remote[Thr(w[1])], w[1]);
U5:           if Variant # "nonotify" then flag[Thr(w[1])] := TRUE; end if;
            end if;
U6:         goto U8;
          elsif Variant = "oneshot" then
            goto U8;
          end if;
U7:       skip;
        end while;
U8:     splk := 0;
      end if;
Y:    \* yield between the rounds
      if n < Rounds then
        yield(self, t);
      end if;
    end while;
E0: await Run(self);
    cur[t] := Head(ready[t]); ready[t] := Tail(ready[t]);
end process;

process Rest0 = 102
begin
R: while TRUE do
     await \A f \in Fibers : pc[f] = "Done";
   end while;
end process;
end algorithm; *)
\* BEGIN TRANSLATION
VARIABLES pc, splk, owner, wq, epoch, sleepw, due, late, cur, pend, ready, 
          remote, sleepq, flag, inside, woken, bad

(* define statement *)
Elems(q) == {q[i] : i \in DOMAIN q}
Run(f)   == cur[Thr(f)] = f /\ pend[Thr(f)] = 0
Fault(c, what) == IF c /\ bad = "" THEN what ELSE bad

VARIABLES pt, dt, df, n, res, w, t

vars == << pc, splk, owner, wq, epoch, sleepw, due, late, cur, pend, ready, 
           remote, sleepq, flag, inside, woken, bad, pt, dt, df, n, res, w, t
        >>

ProcSet == ({201, 202}) \cup {100} \cup ({x + 300 : x \in Threads}) \cup (Fibers) \cup {102}

Init == (* Global variables *)
        /\ splk = 0
        /\ owner = 0
        /\ wq = <<>>
        /\ epoch = [f \in Fibers |-> 0]
        /\ sleepw = [f \in Fibers |-> 0]
        /\ due = [f \in Fibers |-> FALSE]
        /\ late = [f \in Fibers |-> FALSE]
        /\ cur = [x \in 1..2 |-> DISP]
        /\ pend = [x \in 1..2 |-> 0]
        /\ ready = [x \in 1..2 |-> SeqOf(On(x))]
        /\ remote = [x \in 1..2 |-> <<>>]
        /\ sleepq = [x \in 1..2 |-> {}]
        /\ flag = [x \in 1..2 |-> FALSE]
        /\ inside = {}
        /\ woken = Fibers
        /\ bad = ""
        (* Process Post *)
        /\ pt = [self \in {201, 202} |-> self - 200]
        (* Process D *)
        /\ dt = [self \in {x + 300 : x \in Threads} |-> self - 300]
        /\ df = [self \in {x + 300 : x \in Threads} |-> 0]
        (* Process F *)
        /\ n = [self \in Fibers |-> 0]
        /\ res = [self \in Fibers |-> ""]
        /\ w = [self \in Fibers |-> <<>>]
        /\ t = [self \in Fibers |-> Thr(self)]
        /\ pc = [self \in ProcSet |-> CASE self \in {201, 202} -> "W"
                                        [] self = 100 -> "K"
                                        [] self \in {x + 300 : x \in Threads} -> "D0"
                                        [] self \in Fibers -> "B0"
                                        [] self = 102 -> "R"]

W(self) == /\ pc[self] = "W"
           /\ pend[pt[self]] # 0
           /\ IF splk = pend[pt[self]]
                 THEN /\ splk' = 0
                 ELSE /\ TRUE
                      /\ splk' = splk
           /\ pend' = [pend EXCEPT ![pt[self]] = 0]
           /\ pc' = [pc EXCEPT ![self] = "W"]
           /\ UNCHANGED << owner, wq, epoch, sleepw, due, late, cur, ready, 
                           remote, sleepq, flag, inside, woken, bad, pt, dt, 
                           df, n, res, w, t >>

Post(self) == W(self)

K == /\ pc[100] = "K"
     /\ \E x \in {y \in Timed \cap Fibers : ~due[y]}:
          due' = [due EXCEPT ![x] = TRUE]
     /\ pc' = [pc EXCEPT ![100] = "K"]
     /\ UNCHANGED << splk, owner, wq, epoch, sleepw, late, cur, pend, ready, 
                     remote, sleepq, flag, inside, woken, bad, pt, dt, df, n, 
                     res, w, t >>

Clock == K

D0(self) == /\ pc[self] = "D0"
            /\ cur[dt[self]] = DISP /\ pend[dt[self]] = 0
            /\ pc' = [pc EXCEPT ![self] = "D1"]
            /\ UNCHANGED << splk, owner, wq, epoch, sleepw, due, late, cur, 
                            pend, ready, remote, sleepq, flag, inside, woken, 
                            bad, pt, dt, df, n, res, w, t >>

D1(self) == /\ pc[self] = "D1"
            /\ bad' = Fault(Elems(remote[dt[self]]) \cap Elems(ready[dt[self]]) # {}, "ready twice")
            /\ ready' = [ready EXCEPT ![dt[self]] = ready[dt[self]] \o remote[dt[self]]]
            /\ sleepq' = [sleepq EXCEPT ![dt[self]] = IF Variant = "sleepstays" THEN sleepq[dt[self]] ELSE sleepq[dt[self]] \ Elems(remote[dt[self]])]
            /\ remote' = [remote EXCEPT ![dt[self]] = <<>>]
            /\ pc' = [pc EXCEPT ![self] = "D2"]
            /\ UNCHANGED << splk, owner, wq, epoch, sleepw, due, late, cur, 
                            pend, flag, inside, woken, pt, dt, df, n, res, w, 
                            t >>

D2(self) == /\ pc[self] = "D2"
            /\ IF \E x \in sleepq[dt[self]] : due[x]
                  THEN /\ \E x \in {y \in sleepq[dt[self]] : due[y]}:
                            /\ df' = [df EXCEPT ![self] = x]
                            /\ sleepq' = [sleepq EXCEPT ![dt[self]] = sleepq[dt[self]] \ {x}]
                       /\ pc' = [pc EXCEPT ![self] = "D3"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "D4"]
                       /\ UNCHANGED << sleepq, df >>
            /\ UNCHANGED << splk, owner, wq, epoch, sleepw, due, late, cur, 
                            pend, ready, remote, flag, inside, woken, bad, pt, 
                            dt, n, res, w, t >>

D3(self) == /\ pc[self] = "D3"
            /\ IF epoch[df[self]] = sleepw[df[self]] \/ Variant = "noepoch"
                  THEN /\ epoch' = [epoch EXCEPT ![df[self]] = epoch[df[self]] + 1]
                       /\ late' = [late EXCEPT ![df[self]] = TRUE]
                       /\ woken' = (woken \cup {df[self]})
                       /\ bad' = Fault(df[self] \in Elems(ready[dt[self]]), "ready twice")
                       /\ ready' = [ready EXCEPT ![dt[self]] = Append(ready[dt[self]], df[self])]
                  ELSE /\ TRUE
                       /\ UNCHANGED << epoch, late, ready, woken, bad >>
            /\ pc' = [pc EXCEPT ![self] = "D2"]
            /\ UNCHANGED << splk, owner, wq, sleepw, due, cur, pend, remote, 
                            sleepq, flag, inside, pt, dt, df, n, res, w, t >>

D4(self) == /\ pc[self] = "D4"
            /\ IF ready[dt[self]] # <<>>
                  THEN /\ cur' = [cur EXCEPT ![dt[self]] = Head(ready[dt[self]])]
                       /\ ready' = [ready EXCEPT ![dt[self]] = Append(Tail(ready[dt[self]]), DISP)]
                       /\ pc' = [pc EXCEPT ![self] = "D0"]
                       /\ flag' = flag
                  ELSE /\ IF Variant = "flagfirst"
                             THEN /\ flag' = [flag EXCEPT ![dt[self]] = FALSE]
                             ELSE /\ TRUE
                                  /\ flag' = flag
                       /\ pc' = [pc EXCEPT ![self] = "D5"]
                       /\ UNCHANGED << cur, ready >>
            /\ UNCHANGED << splk, owner, wq, epoch, sleepw, due, late, pend, 
                            remote, sleepq, inside, woken, bad, pt, dt, df, n, 
                            res, w, t >>

D5(self) == /\ pc[self] = "D5"
            /\ flag[dt[self]] \/ (\E x \in sleepq[dt[self]] : due[x] /\ Variant # "nodeadline")
            /\ flag' = [flag EXCEPT ![dt[self]] = FALSE]
            /\ pc' = [pc EXCEPT ![self] = "D0"]
            /\ UNCHANGED << splk, owner, wq, epoch, sleepw, due, late, cur, 
                            pend, ready, remote, sleepq, inside, woken, bad, 
                            pt, dt, df, n, res, w, t >>

D(self) == D0(self) \/ D1(self) \/ D2(self) \/ D3(self) \/ D4(self)
              \/ D5(self)

B0(self) == /\ pc[self] = "B0"
            /\ IF n[self] < Rounds
                  THEN /\ Run(self)
                       /\ n' = [n EXCEPT ![self] = n[self] + 1]
                       /\ res' = [res EXCEPT ![self] = ""]
                       /\ pc' = [pc EXCEPT ![self] = "L0"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "E0"]
                       /\ UNCHANGED << n, res >>
            /\ UNCHANGED << splk, owner, wq, epoch, sleepw, due, late, cur, 
                            pend, ready, remote, sleepq, flag, inside, woken, 
                            bad, pt, dt, df, w, t >>

L0(self) == /\ pc[self] = "L0"
            /\ IF res[self] = ""
                  THEN /\ Run(self) /\ splk = 0
                       /\ splk' = self
                       /\ pc' = [pc EXCEPT ![self] = "L1"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "C0"]
                       /\ splk' = splk
            /\ UNCHANGED << owner, wq, epoch, sleepw, due, late, cur, pend, 
                            ready, remote, sleepq, flag, inside, woken, bad, 
                            pt, dt, df, n, res, w, t >>

L1(self) == /\ pc[self] = "L1"
            /\ IF owner = 0
                  THEN /\ owner' = self
                       /\ res' = [res EXCEPT ![self] = "locked"]
                       /\ splk' = 0
                       /\ pc' = [pc EXCEPT ![self] = "L0"]
                       /\ UNCHANGED << wq, epoch, sleepw, late, sleepq, woken, 
                                       bad >>
                  ELSE /\ IF self \in Timed /\ due[self]
                             THEN /\ res' = [res EXCEPT ![self] = "timeout"]
                                  /\ splk' = 0
                                  /\ pc' = [pc EXCEPT ![self] = "L0"]
                                  /\ UNCHANGED << wq, epoch, sleepw, late, 
                                                  sleepq, woken, bad >>
                             ELSE /\ epoch' = [epoch EXCEPT ![self] = epoch[self] + 1]
                                  /\ wq' = Append(wq, <<self, epoch'[self]>>)
                                  /\ woken' = woken \ {self}
                                  /\ late' = [late EXCEPT ![self] = FALSE]
                                  /\ IF self \in Timed
                                        THEN /\ bad' = Fault(self \in sleepq[t[self]], "sleeps twice")
                                             /\ sleepw' = [sleepw EXCEPT ![self] = epoch'[self]]
                                             /\ sleepq' = [sleepq EXCEPT ![t[self]] = sleepq[t[self]] \cup {self}]
                                        ELSE /\ TRUE
                                             /\ UNCHANGED << sleepw, sleepq, 
                                                             bad >>
                                  /\ pc' = [pc EXCEPT ![self] = "L2"]
                                  /\ UNCHANGED << splk, res >>
                       /\ owner' = owner
            /\ UNCHANGED << due, cur, pend, ready, remote, flag, inside, pt, 
                            dt, df, n, w, t >>

L2(self) == /\ pc[self] = "L2"
            /\ cur' = [cur EXCEPT ![t[self]] = Head(ready[t[self]])]
            /\ ready' = [ready EXCEPT ![t[self]] = Tail(ready[t[self]])]
            /\ pend' = [pend EXCEPT ![t[self]] = self]
            /\ pc' = [pc EXCEPT ![self] = "L3"]
            /\ UNCHANGED << splk, owner, wq, epoch, sleepw, due, late, remote, 
                            sleepq, flag, inside, woken, bad, pt, dt, df, n, 
                            res, w, t >>

L3(self) == /\ pc[self] = "L3"
            /\ Run(self)
            /\ bad' = Fault(self \notin woken, "resumed without a reason")
            /\ IF late[self] \/ (Variant = "swallow" /\ self \in Timed /\ due[self])
                  THEN /\ pc' = [pc EXCEPT ![self] = "L4"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "L0"]
            /\ UNCHANGED << splk, owner, wq, epoch, sleepw, due, late, cur, 
                            pend, ready, remote, sleepq, flag, inside, woken, 
                            pt, dt, df, n, res, w, t >>

L4(self) == /\ pc[self] = "L4"
            /\ IF splk # 0
                  THEN /\ cur' = [cur EXCEPT ![t[self]] = Head(ready[t[self]])]
                       /\ ready' = [ready EXCEPT ![t[self]] = Append(Tail(ready[t[self]]), self)]
                       /\ pend' = [pend EXCEPT ![t[self]] = self]
                       /\ pc' = [pc EXCEPT ![self] = "L6"]
                       /\ UNCHANGED << wq, res >>
                  ELSE /\ wq' = SelectSeq(wq, LAMBDA x : x[1] # self)
                       /\ res' = [res EXCEPT ![self] = "timeout"]
                       /\ pc' = [pc EXCEPT ![self] = "L0"]
                       /\ UNCHANGED << cur, pend, ready >>
            /\ UNCHANGED << splk, owner, epoch, sleepw, due, late, remote, 
                            sleepq, flag, inside, woken, bad, pt, dt, df, n, w, 
                            t >>

L6(self) == /\ pc[self] = "L6"
            /\ Run(self)
            /\ pc' = [pc EXCEPT ![self] = "L4"]
            /\ UNCHANGED << splk, owner, wq, epoch, sleepw, due, late, cur, 
                            pend, ready, remote, sleepq, flag, inside, woken, 
                            bad, pt, dt, df, n, res, w, t >>

C0(self) == /\ pc[self] = "C0"
            /\ IF res[self] = "locked"
                  THEN /\ inside' = (inside \cup {self})
                       /\ \/ /\ TRUE
                             /\ pc' = [pc EXCEPT ![self] = "C1"]
                          \/ /\ pc' = [pc EXCEPT ![self] = "CY"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "Y"]
                       /\ UNCHANGED inside
            /\ UNCHANGED << splk, owner, wq, epoch, sleepw, due, late, cur, 
                            pend, ready, remote, sleepq, flag, woken, bad, pt, 
                            dt, df, n, res, w, t >>

C1(self) == /\ pc[self] = "C1"
            /\ inside' = inside \ {self}
            /\ pc' = [pc EXCEPT ![self] = "U0"]
            /\ UNCHANGED << splk, owner, wq, epoch, sleepw, due, late, cur, 
                            pend, ready, remote, sleepq, flag, woken, bad, pt, 
                            dt, df, n, res, w, t >>

U0(self) == /\ pc[self] = "U0"
            /\ splk = 0
            /\ splk' = self
            /\ pc' = [pc EXCEPT ![self] = "U1"]
            /\ UNCHANGED << owner, wq, epoch, sleepw, due, late, cur, pend, 
                            ready, remote, sleepq, flag, inside, woken, bad, 
                            pt, dt, df, n, res, w, t >>

U1(self) == /\ pc[self] = "U1"
            /\ owner' = 0
            /\ pc' = [pc EXCEPT ![self] = "U2"]
            /\ UNCHANGED << splk, wq, epoch, sleepw, due, late, cur, pend, 
                            ready, remote, sleepq, flag, inside, woken, bad, 
                            pt, dt, df, n, res, w, t >>

U2(self) == /\ pc[self] = "U2"
            /\ IF wq # <<>>
                  THEN /\ w' = [w EXCEPT ![self] = Head(wq)]
                       /\ wq' = Tail(wq)
                       /\ pc' = [pc EXCEPT ![self] = "U3"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "U8"]
                       /\ UNCHANGED << wq, w >>
            /\ UNCHANGED << splk, owner, epoch, sleepw, due, late, cur, pend, 
                            ready, remote, sleepq, flag, inside, woken, bad, 
                            pt, dt, df, n, res, t >>

U3(self) == /\ pc[self] = "U3"
            /\ IF epoch[w[self][1]] = w[self][2] \/ Variant = "noepoch"
                  THEN /\ epoch' = [epoch EXCEPT ![w[self][1]] = w[self][2] + 1]
                       /\ woken' = (woken \cup {w[self][1]})
                       /\ pc' = [pc EXCEPT ![self] = "U4"]
                  ELSE /\ IF Variant = "oneshot"
                             THEN /\ pc' = [pc EXCEPT ![self] = "U8"]
                             ELSE /\ pc' = [pc EXCEPT ![self] = "U7"]
                       /\ UNCHANGED << epoch, woken >>
            /\ UNCHANGED << splk, owner, wq, sleepw, due, late, cur, pend, 
                            ready, remote, sleepq, flag, inside, bad, pt, dt, 
                            df, n, res, w, t >>

U4(self) == /\ pc[self] = "U4"
            /\ IF Thr(w[self][1]) = t[self]
                  THEN /\ sleepq' = [sleepq EXCEPT ![t[self]] = IF Variant = "sleepstays" THEN sleepq[t[self]] ELSE sleepq[t[self]] \ {w[self][1]}]
                       /\ bad' = Fault(w[self][1] \in Elems(ready[t[self]]) \cup {cur[t[self]]}, "ready twice")
                       /\ ready' = [ready EXCEPT ![t[self]] = Append(ready[t[self]], w[self][1])]
                       /\ pc' = [pc EXCEPT ![self] = "U6"]
                       /\ UNCHANGED remote
                  ELSE /\ bad' = Fault(w[self][1] \in Elems(remote[Thr(w[self][1])]), "remote twice")
                       /\ remote' = [remote EXCEPT ![Thr(w[self][1])] = Append(remote[Thr(w[self][1])], w[self][1])]
                       /\ pc' = [pc EXCEPT ![self] = "U5"]
                       /\ UNCHANGED << ready, sleepq >>
            /\ UNCHANGED << splk, owner, wq, epoch, sleepw, due, late, cur, 
                            pend, flag, inside, woken, pt, dt, df, n, res, w, 
                            t >>

U5(self) == /\ pc[self] = "U5"
            /\ IF Variant # "nonotify"
                  THEN /\ flag' = [flag EXCEPT ![Thr(w[self][1])] = TRUE]
                  ELSE /\ TRUE
                       /\ flag' = flag
            /\ pc' = [pc EXCEPT ![self] = "U6"]
            /\ UNCHANGED << splk, owner, wq, epoch, sleepw, due, late, cur, 
                            pend, ready, remote, sleepq, inside, woken, bad, 
                            pt, dt, df, n, res, w, t >>

U6(self) == /\ pc[self] = "U6"
            /\ pc' = [pc EXCEPT ![self] = "U8"]
            /\ UNCHANGED << splk, owner, wq, epoch, sleepw, due, late, cur, 
                            pend, ready, remote, sleepq, flag, inside, woken, 
                            bad, pt, dt, df, n, res, w, t >>

U7(self) == /\ pc[self] = "U7"
            /\ TRUE
            /\ pc' = [pc EXCEPT ![self] = "U2"]
            /\ UNCHANGED << splk, owner, wq, epoch, sleepw, due, late, cur, 
                            pend, ready, remote, sleepq, flag, inside, woken, 
                            bad, pt, dt, df, n, res, w, t >>

U8(self) == /\ pc[self] = "U8"
            /\ splk' = 0
            /\ pc' = [pc EXCEPT ![self] = "Y"]
            /\ UNCHANGED << owner, wq, epoch, sleepw, due, late, cur, pend, 
                            ready, remote, sleepq, flag, inside, woken, bad, 
                            pt, dt, df, n, res, w, t >>

CY(self) == /\ pc[self] = "CY"
            /\ cur' = [cur EXCEPT ![t[self]] = Head(ready[t[self]])]
            /\ ready' = [ready EXCEPT ![t[self]] = Append(Tail(ready[t[self]]), self)]
            /\ pend' = [pend EXCEPT ![t[self]] = self]
            /\ pc' = [pc EXCEPT ![self] = "CR"]
            /\ UNCHANGED << splk, owner, wq, epoch, sleepw, due, late, remote, 
                            sleepq, flag, inside, woken, bad, pt, dt, df, n, 
                            res, w, t >>

CR(self) == /\ pc[self] = "CR"
            /\ Run(self)
            /\ pc' = [pc EXCEPT ![self] = "C1"]
            /\ UNCHANGED << splk, owner, wq, epoch, sleepw, due, late, cur, 
                            pend, ready, remote, sleepq, flag, inside, woken, 
                            bad, pt, dt, df, n, res, w, t >>

Y(self) == /\ pc[self] = "Y"
           /\ IF n[self] < Rounds
                 THEN /\ cur' = [cur EXCEPT ![t[self]] = Head(ready[t[self]])]
                      /\ ready' = [ready EXCEPT ![t[self]] = Append(Tail(ready[t[self]]), self)]
                      /\ pend' = [pend EXCEPT ![t[self]] = self]
                 ELSE /\ TRUE
                      /\ UNCHANGED << cur, pend, ready >>
           /\ pc' = [pc EXCEPT ![self] = "B0"]
           /\ UNCHANGED << splk, owner, wq, epoch, sleepw, due, late, remote, 
                           sleepq, flag, inside, woken, bad, pt, dt, df, n, 
                           res, w, t >>

E0(self) == /\ pc[self] = "E0"
            /\ Run(self)
            /\ cur' = [cur EXCEPT ![t[self]] = Head(ready[t[self]])]
            /\ ready' = [ready EXCEPT ![t[self]] = Tail(ready[t[self]])]
            /\ pc' = [pc EXCEPT ![self] = "Done"]
            /\ UNCHANGED << splk, owner, wq, epoch, sleepw, due, late, pend, 
                            remote, sleepq, flag, inside, woken, bad, pt, dt, 
                            df, n, res, w, t >>

F(self) == B0(self) \/ L0(self) \/ L1(self) \/ L2(self) \/ L3(self)
              \/ L4(self) \/ L6(self) \/ C0(self) \/ C1(self) \/ U0(self)
              \/ U1(self) \/ U2(self) \/ U3(self) \/ U4(self) \/ U5(self)
              \/ U6(self) \/ U7(self) \/ U8(self) \/ CY(self) \/ CR(self)
              \/ Y(self) \/ E0(self)

R == /\ pc[102] = "R"
     /\ \A f \in Fibers : pc[f] = "Done"
     /\ pc' = [pc EXCEPT ![102] = "R"]
     /\ UNCHANGED << splk, owner, wq, epoch, sleepw, due, late, cur, pend, 
                     ready, remote, sleepq, flag, inside, woken, bad, pt, dt, 
                     df, n, res, w, t >>

Rest0 == R

Next == Clock \/ Rest0
           \/ (\E self \in {201, 202}: Post(self))
           \/ (\E self \in {x + 300 : x \in Threads}: D(self))
           \/ (\E self \in Fibers: F(self))

Spec == Init /\ [][Next]_vars

\* END TRANSLATION

Good      == bad = ""
Exclusion == Cardinality(inside) <= 1
Once      == \A x \in Threads : LET q == ready[x] IN
               /\ \A i, j \in DOMAIN q : q[i] = q[j] => i = j
               /\ cur[x] \notin Elems(q) \/ pend[x] # 0
=============================================================================
