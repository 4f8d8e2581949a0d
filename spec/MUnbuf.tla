------------------------------- MODULE MUnbuf -------------------------------
(***************************************************************************)
(* Mechanism model: unbuffered_channel.  A producer publishes the address  *)
(* of a slot on its stack by compare-exchange and waits until somebody has *)
(* taken the slot and set its status; consumers take the slot, read the    *)
(* value, wake the producer, set the status.  Two wait queues, each with   *)
(* its own spinlock, hold those who found the slot occupied / empty.       *)
(* Wakers carry an epoch: a wake of an outdated waker has no effect.       *)
(* Which fibers share a thread does not matter here: a fiber waits for a   *)
(* token.                                                                  *)
(*                                                                         *)
(* Properties U01 (a push succeeds iff exactly one pop got its value, a    *)
(* slot is never touched after its push returned) and U02 (partners meet,  *)
(* close and timeouts release the blocked): deadlock freedom, where        *)
(* waiting for a partner who cannot come any more is allowed.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils

Env(k, d) == IF k \in DOMAIN IOEnv THEN IOEnv[k] ELSE d
Variant == Env("VARIANT", "code")
NP      == atoi(Env("NP", "2"))
NC      == atoi(Env("NC", "2"))
Rounds  == atoi(Env("ROUNDS", "1"))
Closing == Env("CLOSE", "1") = "1"
TimedP  == atoi(Env("TIMEDP", "1"))     \* that many producers / consumers use the timed form
TimedC  == atoi(Env("TIMEDC", "1"))
Prods   == 1..NP
Cons    == 11..(10 + NC)
Fibers  == Prods \cup Cons
Timed   == (1..TimedP) \cup (11..(10 + TimedC))

(* --algorithm unbuffered
variables
  slot = 0, closed = FALSE, lockP = 0, lockC = 0,
  wp = <<>>, wc = <<>>,                                  \* wait queues of <<fiber, epoch>>
  epoch = [f \in Fibers |-> 0], token = [f \in Fibers |-> FALSE],
  sleep = [f \in Fibers |-> 0],                          \* epoch of the sleep waker, 0: none
  late = [f \in Fibers |-> FALSE],                       \* resumed because of its deadline
  slotw = [p \in Prods |-> 0], status = [p \in Prods |-> "none"], turn = [p \in Prods |-> 0],
  got = <<>>,                                            \* ghost: delivered <<producer, turn>>
  outcome = {},                                          \* ghost: <<producer, turn, result>>
  bad = FALSE;

define
  \* the queue after a notify_one: outdated wakers are dropped until one is woken
  RECURSIVE Rest(_), First(_)
  First(q) == IF q = <<>> THEN 0 ELSE IF epoch[q[1][1]] = q[1][2] THEN q[1][1] ELSE IF Variant = "oneshot" THEN 0 ELSE First(Tail(q))
  Rest(q)  == IF q = <<>> THEN <<>> ELSE IF epoch[q[1][1]] = q[1][2] THEN Tail(q) ELSE IF Variant = "oneshot" THEN Tail(q) ELSE Rest(Tail(q))
  Live(q)  == {q[i][1] : i \in {i \in DOMAIN q : epoch[q[i][1]] = q[i][2]}}
  Woken(fs) == [f \in Fibers |-> epoch[f] + (IF f \in fs THEN 1 ELSE 0)]
  Tok(fs)   == [f \in Fibers |-> token[f] \/ f \in fs]
  Without(q, f) == SelectSeq(q, LAMBDA w : w[1] # f)
end define;

macro notify_one(q) begin
  with f = First(q) do
    q := Rest(q);
    epoch := Woken({f}); token := Tok({f});
  end with;
end macro;
macro wake(f, e) begin
  if epoch[f] = e then epoch[f] := e + 1; token[f] := TRUE; end if;
end macro;

\* the sleep queue: a deadline may be reached at any time
process Clock = 100
begin
K: while TRUE do
     with f \in {f \in Timed : sleep[f] # 0} do
       if epoch[f] = sleep[f] then epoch[f] := epoch[f] + 1; token[f] := TRUE; late[f] := TRUE; end if;
       sleep[f] := 0;
     end with;
   end while;
end process;

process Closer = 101
variable cs = 0;
begin
X0: await Closing;
    closed := TRUE;
X1: await lockP = 0; lockP := 101;
    if Variant = "closeone" then notify_one(wp);
    else with fs = Live(wp) do epoch := Woken(fs); token := Tok(fs); wp := <<>>; end with;
    end if;
X2: await lockC = 0; lockC := 101;
    with fs = Live(wc) do epoch := Woken(fs); token := Tok(fs); wc := <<>>; end with;
X3: cs := slot;
    if Variant # "closekeeps" then slot := 0; end if;
    if cs # 0 /\ Variant # "closekeeps" then
X4:   wake(cs, slotw[cs]);
X5:   status[cs] := "closed";
    end if;
X6: lockC := 0;
X7: lockP := 0;
end process;

process P \in Prods
variables res = "";
begin
P0: while turn[self] < Rounds do
      turn[self] := turn[self] + 1;
      status[self] := "pending";
      res := "";
P1:   while res = "" do
        if closed then
          res := "closed";
        else
P2:       epoch[self] := epoch[self] + 1;
          slotw[self] := epoch[self];
P3:       if slot = 0 then
            slot := self;
P4:         await lockC = 0; lockC := self;
P5:         if closed /\ slot = self /\ Variant # "closerace" then
              slot := 0; res := "closed"; lockC := 0;
            else
P6:           notify_one(wc);
P7:           late[self] := FALSE;
              if self \in Timed then sleep[self] := slotw[self]; end if;
              lockC := 0;
P8:           await token[self]; token[self] := FALSE; sleep[self] := 0;
              if late[self] /\ (slot = self \/ Variant = "noretract") then
                if slot = self then slot := 0; end if;
P9:             await lockP = 0; lockP := self;
                if Variant # "nohandover" then notify_one(wp); end if;
                res := "timeout";
P10:            lockP := 0;
              else
P11:            await status[self] # "pending";
                res := status[self];
              end if;
            end if;
          else
P12:        await lockP = 0; lockP := self;
P12a:       if closed then
              res := "closed"; lockP := 0;
            elsif slot = 0 /\ Variant # "nocheckp" then
              lockP := 0;
            else
              epoch[self] := epoch[self] + 1;
              wp := Append(wp, <<self, epoch[self]>>);
              late[self] := FALSE;
              if self \in Timed then sleep[self] := epoch[self]; end if;
P13:          lockP := 0;
P14:          await token[self]; token[self] := FALSE; sleep[self] := 0;
              if late[self] then
P15:            await lockP = 0;
                wp := Without(wp, self);
                res := "timeout";
              end if;
            end if;
          end if;
        end if;
      end while;
P16:  outcome := outcome \cup {<<self, turn[self], res>>};
      status[self] := "none";
    end while;
end process;

process C \in Cons
variables m = 0, cr = "", s = 0, st = 0;
begin
C0: while m < Rounds do
      m := m + 1; cr := "";
C1:   while cr = "" do
        s := slot;
        if s # 0 then
          slot := 0; st := turn[s];
C2:       await lockP = 0; lockP := self;
          notify_one(wp);
C3:       lockP := 0;
          if Variant = "statusfirst" then status[s] := "consumed"; end if;
C4:       \* the value is read from the producer's stack
          bad := bad \/ turn[s] # st \/ status[s] = "none";
          got := Append(got, <<s, st>>);
C5:       bad := bad \/ turn[s] # st \/ status[s] = "none";
          wake(s, slotw[s]);
C6:       bad := bad \/ turn[s] # st \/ (status[s] = "none");
          status[s] := "consumed";
          cr := "ok";
        else
C7:       await lockC = 0; lockC := self;
C7a:      if closed then
            cr := "closed"; lockC := 0;
          elsif slot # 0 /\ Variant # "nocheckc" then
            lockC := 0;
          else
            epoch[self] := epoch[self] + 1;
            wc := Append(wc, <<self, epoch[self]>>);
            late[self] := FALSE;
            if self \in Timed then sleep[self] := epoch[self]; end if;
C8:         lockC := 0;
C9:         await token[self]; token[self] := FALSE; sleep[self] := 0;
            if late[self] then
C10:          await lockC = 0;
              wc := Without(wc, self);
              cr := "timeout";
            end if;
          end if;
        end if;
      end while;
    end while;
end process;

\* waiting for a partner who will not come is no deadlock
process Rest0 = 102
begin
R: while TRUE do
     await \/ \A p \in Prods \cup Cons : pc[p] = "Done"
           \/ ~Closing /\ \A p \in Prods : pc[p] = "Done"
           \/ ~Closing /\ \A c \in Cons : pc[c] = "Done";
   end while;
end process;
end algorithm; *)
\* BEGIN TRANSLATION
VARIABLES pc, slot, closed, lockP, lockC, wp, wc, epoch, token, sleep, late, 
          slotw, status, turn, got, outcome, bad

(* define statement *)
RECURSIVE Rest(_), First(_)
First(q) == IF q = <<>> THEN 0 ELSE IF epoch[q[1][1]] = q[1][2] THEN q[1][1] ELSE IF Variant = "oneshot" THEN 0 ELSE First(Tail(q))
Rest(q)  == IF q = <<>> THEN <<>> ELSE IF epoch[q[1][1]] = q[1][2] THEN Tail(q) ELSE IF Variant = "oneshot" THEN Tail(q) ELSE Rest(Tail(q))
Live(q)  == {q[i][1] : i \in {i \in DOMAIN q : epoch[q[i][1]] = q[i][2]}}
Woken(fs) == [f \in Fibers |-> epoch[f] + (IF f \in fs THEN 1 ELSE 0)]
Tok(fs)   == [f \in Fibers |-> token[f] \/ f \in fs]
Without(q, f) == SelectSeq(q, LAMBDA w : w[1] # f)

VARIABLES cs, res, m, cr, s, st

vars == << pc, slot, closed, lockP, lockC, wp, wc, epoch, token, sleep, late, 
           slotw, status, turn, got, outcome, bad, cs, res, m, cr, s, st >>

ProcSet == {100} \cup {101} \cup (Prods) \cup (Cons) \cup {102}

Init == (* Global variables *)
        /\ slot = 0
        /\ closed = FALSE
        /\ lockP = 0
        /\ lockC = 0
        /\ wp = <<>>
        /\ wc = <<>>
        /\ epoch = [f \in Fibers |-> 0]
        /\ token = [f \in Fibers |-> FALSE]
        /\ sleep = [f \in Fibers |-> 0]
        /\ late = [f \in Fibers |-> FALSE]
        /\ slotw = [p \in Prods |-> 0]
        /\ status = [p \in Prods |-> "none"]
        /\ turn = [p \in Prods |-> 0]
        /\ got = <<>>
        /\ outcome = {}
        /\ bad = FALSE
        (* Process Closer *)
        /\ cs = 0
        (* Process P *)
        /\ res = [self \in Prods |-> ""]
        (* Process C *)
        /\ m = [self \in Cons |-> 0]
        /\ cr = [self \in Cons |-> ""]
        /\ s = [self \in Cons |-> 0]
        /\ st = [self \in Cons |-> 0]
        /\ pc = [self \in ProcSet |-> CASE self = 100 -> "K"
                                        [] self = 101 -> "X0"
                                        [] self \in Prods -> "P0"
                                        [] self \in Cons -> "C0"
                                        [] self = 102 -> "R"]

K == /\ pc[100] = "K"
     /\ \E f \in {f \in Timed : sleep[f] # 0}:
          /\ IF epoch[f] = sleep[f]
                THEN /\ epoch' = [epoch EXCEPT ![f] = epoch[f] + 1]
                     /\ token' = [token EXCEPT ![f] = TRUE]
                     /\ late' = [late EXCEPT ![f] = TRUE]
                ELSE /\ TRUE
                     /\ UNCHANGED << epoch, token, late >>
          /\ sleep' = [sleep EXCEPT ![f] = 0]
     /\ pc' = [pc EXCEPT ![100] = "K"]
     /\ UNCHANGED << slot, closed, lockP, lockC, wp, wc, slotw, status, turn, 
                     got, outcome, bad, cs, res, m, cr, s, st >>

Clock == K

X0 == /\ pc[101] = "X0"
      /\ Closing
      /\ closed' = TRUE
      /\ pc' = [pc EXCEPT ![101] = "X1"]
      /\ UNCHANGED << slot, lockP, lockC, wp, wc, epoch, token, sleep, late, 
                      slotw, status, turn, got, outcome, bad, cs, res, m, cr, 
                      s, st >>

X1 == /\ pc[101] = "X1"
      /\ lockP = 0
      /\ lockP' = 101
      /\ IF Variant = "closeone"
            THEN /\ LET f == First(wp) IN
                      /\ wp' = Rest(wp)
                      /\ epoch' = Woken({f})
                      /\ token' = Tok({f})
            ELSE /\ LET fs == Live(wp) IN
                      /\ epoch' = Woken(fs)
                      /\ token' = Tok(fs)
                      /\ wp' = <<>>
      /\ pc' = [pc EXCEPT ![101] = "X2"]
      /\ UNCHANGED << slot, closed, lockC, wc, sleep, late, slotw, status, 
                      turn, got, outcome, bad, cs, res, m, cr, s, st >>

X2 == /\ pc[101] = "X2"
      /\ lockC = 0
      /\ lockC' = 101
      /\ LET fs == Live(wc) IN
           /\ epoch' = Woken(fs)
           /\ token' = Tok(fs)
           /\ wc' = <<>>
      /\ pc' = [pc EXCEPT ![101] = "X3"]
      /\ UNCHANGED << slot, closed, lockP, wp, sleep, late, slotw, status, 
                      turn, got, outcome, bad, cs, res, m, cr, s, st >>

X3 == /\ pc[101] = "X3"
      /\ cs' = slot
      /\ IF Variant # "closekeeps"
            THEN /\ slot' = 0
            ELSE /\ TRUE
                 /\ slot' = slot
      /\ IF cs' # 0 /\ Variant # "closekeeps"
            THEN /\ pc' = [pc EXCEPT ![101] = "X4"]
            ELSE /\ pc' = [pc EXCEPT ![101] = "X6"]
      /\ UNCHANGED << closed, lockP, lockC, wp, wc, epoch, token, sleep, late, 
                      slotw, status, turn, got, outcome, bad, res, m, cr, s, 
                      st >>

X4 == /\ pc[101] = "X4"
      /\ IF epoch[cs] = (slotw[cs])
            THEN /\ epoch' = [epoch EXCEPT ![cs] = (slotw[cs]) + 1]
                 /\ token' = [token EXCEPT ![cs] = TRUE]
            ELSE /\ TRUE
                 /\ UNCHANGED << epoch, token >>
      /\ pc' = [pc EXCEPT ![101] = "X5"]
      /\ UNCHANGED << slot, closed, lockP, lockC, wp, wc, sleep, late, slotw, 
                      status, turn, got, outcome, bad, cs, res, m, cr, s, st >>

X5 == /\ pc[101] = "X5"
      /\ status' = [status EXCEPT ![cs] = "closed"]
      /\ pc' = [pc EXCEPT ![101] = "X6"]
      /\ UNCHANGED << slot, closed, lockP, lockC, wp, wc, epoch, token, sleep, 
                      late, slotw, turn, got, outcome, bad, cs, res, m, cr, s, 
                      st >>

X6 == /\ pc[101] = "X6"
      /\ lockC' = 0
      /\ pc' = [pc EXCEPT ![101] = "X7"]
      /\ UNCHANGED << slot, closed, lockP, wp, wc, epoch, token, sleep, late, 
                      slotw, status, turn, got, outcome, bad, cs, res, m, cr, 
                      s, st >>

X7 == /\ pc[101] = "X7"
      /\ lockP' = 0
      /\ pc' = [pc EXCEPT ![101] = "Done"]
      /\ UNCHANGED << slot, closed, lockC, wp, wc, epoch, token, sleep, late, 
                      slotw, status, turn, got, outcome, bad, cs, res, m, cr, 
                      s, st >>

Closer == X0 \/ X1 \/ X2 \/ X3 \/ X4 \/ X5 \/ X6 \/ X7

P0(self) == /\ pc[self] = "P0"
            /\ IF turn[self] < Rounds
                  THEN /\ turn' = [turn EXCEPT ![self] = turn[self] + 1]
                       /\ status' = [status EXCEPT ![self] = "pending"]
                       /\ res' = [res EXCEPT ![self] = ""]
                       /\ pc' = [pc EXCEPT ![self] = "P1"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "Done"]
                       /\ UNCHANGED << status, turn, res >>
            /\ UNCHANGED << slot, closed, lockP, lockC, wp, wc, epoch, token, 
                            sleep, late, slotw, got, outcome, bad, cs, m, cr, 
                            s, st >>

P1(self) == /\ pc[self] = "P1"
            /\ IF res[self] = ""
                  THEN /\ IF closed
                             THEN /\ res' = [res EXCEPT ![self] = "closed"]
                                  /\ pc' = [pc EXCEPT ![self] = "P1"]
                             ELSE /\ pc' = [pc EXCEPT ![self] = "P2"]
                                  /\ res' = res
                  ELSE /\ pc' = [pc EXCEPT ![self] = "P16"]
                       /\ res' = res
            /\ UNCHANGED << slot, closed, lockP, lockC, wp, wc, epoch, token, 
                            sleep, late, slotw, status, turn, got, outcome, 
                            bad, cs, m, cr, s, st >>

P2(self) == /\ pc[self] = "P2"
            /\ epoch' = [epoch EXCEPT ![self] = epoch[self] + 1]
            /\ slotw' = [slotw EXCEPT ![self] = epoch'[self]]
            /\ pc' = [pc EXCEPT ![self] = "P3"]
            /\ UNCHANGED << slot, closed, lockP, lockC, wp, wc, token, sleep, 
                            late, status, turn, got, outcome, bad, cs, res, m, 
                            cr, s, st >>

P3(self) == /\ pc[self] = "P3"
            /\ IF slot = 0
                  THEN /\ slot' = self
                       /\ pc' = [pc EXCEPT ![self] = "P4"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "P12"]
                       /\ slot' = slot
            /\ UNCHANGED << closed, lockP, lockC, wp, wc, epoch, token, sleep, 
                            late, slotw, status, turn, got, outcome, bad, cs, 
                            res, m, cr, s, st >>

P4(self) == /\ pc[self] = "P4"
            /\ lockC = 0
            /\ lockC' = self
            /\ pc' = [pc EXCEPT ![self] = "P5"]
            /\ UNCHANGED << slot, closed, lockP, wp, wc, epoch, token, sleep, 
                            late, slotw, status, turn, got, outcome, bad, cs, 
                            res, m, cr, s, st >>

P5(self) == /\ pc[self] = "P5"
            /\ IF closed /\ slot = self /\ Variant # "closerace"
                  THEN /\ slot' = 0
                       /\ res' = [res EXCEPT ![self] = "closed"]
                       /\ lockC' = 0
                       /\ pc' = [pc EXCEPT ![self] = "P1"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "P6"]
                       /\ UNCHANGED << slot, lockC, res >>
            /\ UNCHANGED << closed, lockP, wp, wc, epoch, token, sleep, late, 
                            slotw, status, turn, got, outcome, bad, cs, m, cr, 
                            s, st >>

P6(self) == /\ pc[self] = "P6"
            /\ LET f == First(wc) IN
                 /\ wc' = Rest(wc)
                 /\ epoch' = Woken({f})
                 /\ token' = Tok({f})
            /\ pc' = [pc EXCEPT ![self] = "P7"]
            /\ UNCHANGED << slot, closed, lockP, lockC, wp, sleep, late, slotw, 
                            status, turn, got, outcome, bad, cs, res, m, cr, s, 
                            st >>

P7(self) == /\ pc[self] = "P7"
            /\ late' = [late EXCEPT ![self] = FALSE]
            /\ IF self \in Timed
                  THEN /\ sleep' = [sleep EXCEPT ![self] = slotw[self]]
                  ELSE /\ TRUE
                       /\ sleep' = sleep
            /\ lockC' = 0
            /\ pc' = [pc EXCEPT ![self] = "P8"]
            /\ UNCHANGED << slot, closed, lockP, wp, wc, epoch, token, slotw, 
                            status, turn, got, outcome, bad, cs, res, m, cr, s, 
                            st >>

P8(self) == /\ pc[self] = "P8"
            /\ token[self]
            /\ token' = [token EXCEPT ![self] = FALSE]
            /\ sleep' = [sleep EXCEPT ![self] = 0]
            /\ IF late[self] /\ (slot = self \/ Variant = "noretract")
                  THEN /\ IF slot = self
                             THEN /\ slot' = 0
                             ELSE /\ TRUE
                                  /\ slot' = slot
                       /\ pc' = [pc EXCEPT ![self] = "P9"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "P11"]
                       /\ slot' = slot
            /\ UNCHANGED << closed, lockP, lockC, wp, wc, epoch, late, slotw, 
                            status, turn, got, outcome, bad, cs, res, m, cr, s, 
                            st >>

P9(self) == /\ pc[self] = "P9"
            /\ lockP = 0
            /\ lockP' = self
            /\ IF Variant # "nohandover"
                  THEN /\ LET f == First(wp) IN
                            /\ wp' = Rest(wp)
                            /\ epoch' = Woken({f})
                            /\ token' = Tok({f})
                  ELSE /\ TRUE
                       /\ UNCHANGED << wp, epoch, token >>
            /\ res' = [res EXCEPT ![self] = "timeout"]
            /\ pc' = [pc EXCEPT ![self] = "P10"]
            /\ UNCHANGED << slot, closed, lockC, wc, sleep, late, slotw, 
                            status, turn, got, outcome, bad, cs, m, cr, s, st >>

P10(self) == /\ pc[self] = "P10"
             /\ lockP' = 0
             /\ pc' = [pc EXCEPT ![self] = "P1"]
             /\ UNCHANGED << slot, closed, lockC, wp, wc, epoch, token, sleep, 
                             late, slotw, status, turn, got, outcome, bad, cs, 
                             res, m, cr, s, st >>

P11(self) == /\ pc[self] = "P11"
             /\ status[self] # "pending"
             /\ res' = [res EXCEPT ![self] = status[self]]
             /\ pc' = [pc EXCEPT ![self] = "P1"]
             /\ UNCHANGED << slot, closed, lockP, lockC, wp, wc, epoch, token, 
                             sleep, late, slotw, status, turn, got, outcome, 
                             bad, cs, m, cr, s, st >>

P12(self) == /\ pc[self] = "P12"
             /\ lockP = 0
             /\ lockP' = self
             /\ pc' = [pc EXCEPT ![self] = "P12a"]
             /\ UNCHANGED << slot, closed, lockC, wp, wc, epoch, token, sleep, 
                             late, slotw, status, turn, got, outcome, bad, cs, 
                             res, m, cr, s, st >>

P12a(self) == /\ pc[self] = "P12a"
              /\ IF closed
                    THEN /\ res' = [res EXCEPT ![self] = "closed"]
                         /\ lockP' = 0
                         /\ pc' = [pc EXCEPT ![self] = "P1"]
                         /\ UNCHANGED << wp, epoch, sleep, late >>
                    ELSE /\ IF slot = 0 /\ Variant # "nocheckp"
                               THEN /\ lockP' = 0
                                    /\ pc' = [pc EXCEPT ![self] = "P1"]
                                    /\ UNCHANGED << wp, epoch, sleep, late >>
                               ELSE /\ epoch' = [epoch EXCEPT ![self] = epoch[self] + 1]
                                    /\ wp' = Append(wp, <<self, epoch'[self]>>)
                                    /\ late' = [late EXCEPT ![self] = FALSE]
                                    /\ IF self \in Timed
                                          THEN /\ sleep' = [sleep EXCEPT ![self] = epoch'[self]]
                                          ELSE /\ TRUE
                                               /\ sleep' = sleep
                                    /\ pc' = [pc EXCEPT ![self] = "P13"]
                                    /\ lockP' = lockP
                         /\ res' = res
              /\ UNCHANGED << slot, closed, lockC, wc, token, slotw, status, 
                              turn, got, outcome, bad, cs, m, cr, s, st >>

P13(self) == /\ pc[self] = "P13"
             /\ lockP' = 0
             /\ pc' = [pc EXCEPT ![self] = "P14"]
             /\ UNCHANGED << slot, closed, lockC, wp, wc, epoch, token, sleep, 
                             late, slotw, status, turn, got, outcome, bad, cs, 
                             res, m, cr, s, st >>

P14(self) == /\ pc[self] = "P14"
             /\ token[self]
             /\ token' = [token EXCEPT ![self] = FALSE]
             /\ sleep' = [sleep EXCEPT ![self] = 0]
             /\ IF late[self]
                   THEN /\ pc' = [pc EXCEPT ![self] = "P15"]
                   ELSE /\ pc' = [pc EXCEPT ![self] = "P1"]
             /\ UNCHANGED << slot, closed, lockP, lockC, wp, wc, epoch, late, 
                             slotw, status, turn, got, outcome, bad, cs, res, 
                             m, cr, s, st >>

P15(self) == /\ pc[self] = "P15"
             /\ lockP = 0
             /\ wp' = Without(wp, self)
             /\ res' = [res EXCEPT ![self] = "timeout"]
             /\ pc' = [pc EXCEPT ![self] = "P1"]
             /\ UNCHANGED << slot, closed, lockP, lockC, wc, epoch, token, 
                             sleep, late, slotw, status, turn, got, outcome, 
                             bad, cs, m, cr, s, st >>

P16(self) == /\ pc[self] = "P16"
             /\ outcome' = (outcome \cup {<<self, turn[self], res[self]>>})
             /\ status' = [status EXCEPT ![self] = "none"]
             /\ pc' = [pc EXCEPT ![self] = "P0"]
             /\ UNCHANGED << slot, closed, lockP, lockC, wp, wc, epoch, token, 
                             sleep, late, slotw, turn, got, bad, cs, res, m, 
                             cr, s, st >>

P(self) == P0(self) \/ P1(self) \/ P2(self) \/ P3(self) \/ P4(self)
              \/ P5(self) \/ P6(self) \/ P7(self) \/ P8(self) \/ P9(self)
              \/ P10(self) \/ P11(self) \/ P12(self) \/ P12a(self)
              \/ P13(self) \/ P14(self) \/ P15(self) \/ P16(self)

C0(self) == /\ pc[self] = "C0"
            /\ IF m[self] < Rounds
                  THEN /\ m' = [m EXCEPT ![self] = m[self] + 1]
                       /\ cr' = [cr EXCEPT ![self] = ""]
                       /\ pc' = [pc EXCEPT ![self] = "C1"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "Done"]
                       /\ UNCHANGED << m, cr >>
            /\ UNCHANGED << slot, closed, lockP, lockC, wp, wc, epoch, token, 
                            sleep, late, slotw, status, turn, got, outcome, 
                            bad, cs, res, s, st >>

C1(self) == /\ pc[self] = "C1"
            /\ IF cr[self] = ""
                  THEN /\ s' = [s EXCEPT ![self] = slot]
                       /\ IF s'[self] # 0
                             THEN /\ slot' = 0
                                  /\ st' = [st EXCEPT ![self] = turn[s'[self]]]
                                  /\ pc' = [pc EXCEPT ![self] = "C2"]
                             ELSE /\ pc' = [pc EXCEPT ![self] = "C7"]
                                  /\ UNCHANGED << slot, st >>
                  ELSE /\ pc' = [pc EXCEPT ![self] = "C0"]
                       /\ UNCHANGED << slot, s, st >>
            /\ UNCHANGED << closed, lockP, lockC, wp, wc, epoch, token, sleep, 
                            late, slotw, status, turn, got, outcome, bad, cs, 
                            res, m, cr >>

C2(self) == /\ pc[self] = "C2"
            /\ lockP = 0
            /\ lockP' = self
            /\ LET f == First(wp) IN
                 /\ wp' = Rest(wp)
                 /\ epoch' = Woken({f})
                 /\ token' = Tok({f})
            /\ pc' = [pc EXCEPT ![self] = "C3"]
            /\ UNCHANGED << slot, closed, lockC, wc, sleep, late, slotw, 
                            status, turn, got, outcome, bad, cs, res, m, cr, s, 
                            st >>

C3(self) == /\ pc[self] = "C3"
            /\ lockP' = 0
            /\ IF Variant = "statusfirst"
                  THEN /\ status' = [status EXCEPT ![s[self]] = "consumed"]
                  ELSE /\ TRUE
                       /\ UNCHANGED status
            /\ pc' = [pc EXCEPT ![self] = "C4"]
            /\ UNCHANGED << slot, closed, lockC, wp, wc, epoch, token, sleep, 
                            late, slotw, turn, got, outcome, bad, cs, res, m, 
                            cr, s, st >>

C4(self) == /\ pc[self] = "C4"
            /\ bad' = (bad \/ turn[s[self]] # st[self] \/ status[s[self]] = "none")
            /\ got' = Append(got, <<s[self], st[self]>>)
            /\ pc' = [pc EXCEPT ![self] = "C5"]
            /\ UNCHANGED << slot, closed, lockP, lockC, wp, wc, epoch, token, 
                            sleep, late, slotw, status, turn, outcome, cs, res, 
                            m, cr, s, st >>

C5(self) == /\ pc[self] = "C5"
            /\ bad' = (bad \/ turn[s[self]] # st[self] \/ status[s[self]] = "none")
            /\ IF epoch[s[self]] = (slotw[s[self]])
                  THEN /\ epoch' = [epoch EXCEPT ![s[self]] = (slotw[s[self]]) + 1]
                       /\ token' = [token EXCEPT ![s[self]] = TRUE]
                  ELSE /\ TRUE
                       /\ UNCHANGED << epoch, token >>
            /\ pc' = [pc EXCEPT ![self] = "C6"]
            /\ UNCHANGED << slot, closed, lockP, lockC, wp, wc, sleep, late, 
                            slotw, status, turn, got, outcome, cs, res, m, cr, 
                            s, st >>

C6(self) == /\ pc[self] = "C6"
            /\ bad' = (bad \/ turn[s[self]] # st[self] \/ (status[s[self]] = "none"))
            /\ status' = [status EXCEPT ![s[self]] = "consumed"]
            /\ cr' = [cr EXCEPT ![self] = "ok"]
            /\ pc' = [pc EXCEPT ![self] = "C1"]
            /\ UNCHANGED << slot, closed, lockP, lockC, wp, wc, epoch, token, 
                            sleep, late, slotw, turn, got, outcome, cs, res, m, 
                            s, st >>

C7(self) == /\ pc[self] = "C7"
            /\ lockC = 0
            /\ lockC' = self
            /\ pc' = [pc EXCEPT ![self] = "C7a"]
            /\ UNCHANGED << slot, closed, lockP, wp, wc, epoch, token, sleep, 
                            late, slotw, status, turn, got, outcome, bad, cs, 
                            res, m, cr, s, st >>

C7a(self) == /\ pc[self] = "C7a"
             /\ IF closed
                   THEN /\ cr' = [cr EXCEPT ![self] = "closed"]
                        /\ lockC' = 0
                        /\ pc' = [pc EXCEPT ![self] = "C1"]
                        /\ UNCHANGED << wc, epoch, sleep, late >>
                   ELSE /\ IF slot # 0 /\ Variant # "nocheckc"
                              THEN /\ lockC' = 0
                                   /\ pc' = [pc EXCEPT ![self] = "C1"]
                                   /\ UNCHANGED << wc, epoch, sleep, late >>
                              ELSE /\ epoch' = [epoch EXCEPT ![self] = epoch[self] + 1]
                                   /\ wc' = Append(wc, <<self, epoch'[self]>>)
                                   /\ late' = [late EXCEPT ![self] = FALSE]
                                   /\ IF self \in Timed
                                         THEN /\ sleep' = [sleep EXCEPT ![self] = epoch'[self]]
                                         ELSE /\ TRUE
                                              /\ sleep' = sleep
                                   /\ pc' = [pc EXCEPT ![self] = "C8"]
                                   /\ lockC' = lockC
                        /\ cr' = cr
             /\ UNCHANGED << slot, closed, lockP, wp, token, slotw, status, 
                             turn, got, outcome, bad, cs, res, m, s, st >>

C8(self) == /\ pc[self] = "C8"
            /\ lockC' = 0
            /\ pc' = [pc EXCEPT ![self] = "C9"]
            /\ UNCHANGED << slot, closed, lockP, wp, wc, epoch, token, sleep, 
                            late, slotw, status, turn, got, outcome, bad, cs, 
                            res, m, cr, s, st >>

C9(self) == /\ pc[self] = "C9"
            /\ token[self]
            /\ token' = [token EXCEPT ![self] = FALSE]
            /\ sleep' = [sleep EXCEPT ![self] = 0]
            /\ IF late[self]
                  THEN /\ pc' = [pc EXCEPT ![self] = "C10"]
                  ELSE /\ pc' = [pc EXCEPT ![self] = "C1"]
            /\ UNCHANGED << slot, closed, lockP, lockC, wp, wc, epoch, late, 
                            slotw, status, turn, got, outcome, bad, cs, res, m, 
                            cr, s, st >>

C10(self) == /\ pc[self] = "C10"
             /\ lockC = 0
             /\ wc' = Without(wc, self)
             /\ cr' = [cr EXCEPT ![self] = "timeout"]
             /\ pc' = [pc EXCEPT ![self] = "C1"]
             /\ UNCHANGED << slot, closed, lockP, lockC, wp, epoch, token, 
                             sleep, late, slotw, status, turn, got, outcome, 
                             bad, cs, res, m, s, st >>

C(self) == C0(self) \/ C1(self) \/ C2(self) \/ C3(self) \/ C4(self)
              \/ C5(self) \/ C6(self) \/ C7(self) \/ C7a(self) \/ C8(self)
              \/ C9(self) \/ C10(self)

R == /\ pc[102] = "R"
     /\ \/ \A p \in Prods \cup Cons : pc[p] = "Done"
        \/ ~Closing /\ \A p \in Prods : pc[p] = "Done"
        \/ ~Closing /\ \A c \in Cons : pc[c] = "Done"
     /\ pc' = [pc EXCEPT ![102] = "R"]
     /\ UNCHANGED << slot, closed, lockP, lockC, wp, wc, epoch, token, sleep, 
                     late, slotw, status, turn, got, outcome, bad, cs, res, m, 
                     cr, s, st >>

Rest0 == R

Next == Clock \/ Closer \/ Rest0
           \/ (\E self \in Prods: P(self))
           \/ (\E self \in Cons: C(self))

Spec == Init /\ [][Next]_vars

\* END TRANSLATION

NotBad == ~bad
Once   == \A i, j \in DOMAIN got : got[i] = got[j] => i = j
Agree  == \A o \in outcome : (o[3] = "consumed") = (\E i \in DOMAIN got : got[i] = <<o[1], o[2]>>)
\* wakeups arrive only at fibers that wait
Tokens == \A f \in Fibers : token[f] => pc[f] \in {"P4", "P5", "P6", "P7", "P8", "P13", "P14", "C8", "C9"}
=============================================================================
