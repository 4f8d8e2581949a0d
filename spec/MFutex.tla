------------------------------- MODULE MFutex -------------------------------
(***************************************************************************)
(* Mechanism model: the futex based spinlocks (spinlock_ttas_futex,        *)
(* spinlock_ttas_adaptive_futex).  value is 0 (free), 1 (held), 2 (held,   *)
(* perhaps sleepers).  A thread tries a bounded number of times to go from *)
(* 0 to 1; then it always leaves 2 behind and sleeps while the word is 2.  *)
(* unlock decrements and, unless the word was 1, frees the lock and wakes  *)
(* one sleeper.  The kernel's futex_wait compares and enqueues atomically. *)
(*                                                                         *)
(* Property T01: Exclusion; nobody sleeps for ever (deadlock freedom, and  *)
(* Progress under fair scheduling).  VARIANT selects slips which TLC must  *)
(* refute; "code" is the library.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils

Env(k, d) == IF k \in DOMAIN IOEnv THEN IOEnv[k] ELSE d
Variant == Env("VARIANT", "code")
N       == atoi(Env("NT", "3"))
Rounds  == atoi(Env("ROUNDS", "2"))
Tries   == 2
Threads == 1..N

(* --algorithm futex
variables value = 0, sleeping = {}, inside = {};

macro cas(from, to, ok) begin
  if value = from then value := to; ok := TRUE; else ok := FALSE; end if;
end macro;

process T \in Threads
variables n = 0, tries = 0, expected = 0, ok = FALSE;
begin
NextR: while n < Rounds do
        tries := 0;
Spin:   while tries < Tries do
          tries := tries + 1;
          expected := value;
          if expected = 0 then
Cas:        cas(0, 1, ok);
            if ok then goto Crit; else expected := value; end if;
          end if;
        end while;
Slow:   if expected # 2 then
          expected := value;
          value := 2;
        end if;
Loop:   while expected # 0 do
Wait:     \* futex_wait( & value_, 2)
          if value = 2 \/ Variant = "blindwait" then
            sleeping := sleeping \cup {self};
Sleep:      await self \notin sleeping;
          end if;
Xchg:     expected := value;
          value := IF Variant = "relock1" THEN 1 ELSE 2;
        end while;
Crit:   inside := inside \cup {self};
Out:    inside := inside \ {self};
        \* unlock
Dec:    expected := value;
        value := value - 1;
Zero:   if expected # 1 then
          if Variant # "nozero" then value := 0; end if;
Wake:     if Variant # "nowake" then
            with t \in (IF sleeping = {} THEN {0} ELSE sleeping) do sleeping := sleeping \ {t}; end with;
          end if;
        end if;
Done1:  n := n + 1;
      end while;
end process;
end algorithm; *)
\* BEGIN TRANSLATION
VARIABLES pc, value, sleeping, inside, n, tries, expected, ok

vars == << pc, value, sleeping, inside, n, tries, expected, ok >>

ProcSet == (Threads)

Init == (* Global variables *)
        /\ value = 0
        /\ sleeping = {}
        /\ inside = {}
        (* Process T *)
        /\ n = [self \in Threads |-> 0]
        /\ tries = [self \in Threads |-> 0]
        /\ expected = [self \in Threads |-> 0]
        /\ ok = [self \in Threads |-> FALSE]
        /\ pc = [self \in ProcSet |-> "NextR"]

NextR(self) == /\ pc[self] = "NextR"
               /\ IF n[self] < Rounds
                     THEN /\ tries' = [tries EXCEPT ![self] = 0]
                          /\ pc' = [pc EXCEPT ![self] = "Spin"]
                     ELSE /\ pc' = [pc EXCEPT ![self] = "Done"]
                          /\ tries' = tries
               /\ UNCHANGED << value, sleeping, inside, n, expected, ok >>

Spin(self) == /\ pc[self] = "Spin"
              /\ IF tries[self] < Tries
                    THEN /\ tries' = [tries EXCEPT ![self] = tries[self] + 1]
                         /\ expected' = [expected EXCEPT ![self] = value]
                         /\ IF expected'[self] = 0
                               THEN /\ pc' = [pc EXCEPT ![self] = "Cas"]
                               ELSE /\ pc' = [pc EXCEPT ![self] = "Spin"]
                    ELSE /\ pc' = [pc EXCEPT ![self] = "Slow"]
                         /\ UNCHANGED << tries, expected >>
              /\ UNCHANGED << value, sleeping, inside, n, ok >>

Cas(self) == /\ pc[self] = "Cas"
             /\ IF value = 0
                   THEN /\ value' = 1
                        /\ ok' = [ok EXCEPT ![self] = TRUE]
                   ELSE /\ ok' = [ok EXCEPT ![self] = FALSE]
                        /\ value' = value
             /\ IF ok'[self]
                   THEN /\ pc' = [pc EXCEPT ![self] = "Crit"]
                        /\ UNCHANGED expected
                   ELSE /\ expected' = [expected EXCEPT ![self] = value']
                        /\ pc' = [pc EXCEPT ![self] = "Spin"]
             /\ UNCHANGED << sleeping, inside, n, tries >>

Slow(self) == /\ pc[self] = "Slow"
              /\ IF expected[self] # 2
                    THEN /\ expected' = [expected EXCEPT ![self] = value]
                         /\ value' = 2
                    ELSE /\ TRUE
                         /\ UNCHANGED << value, expected >>
              /\ pc' = [pc EXCEPT ![self] = "Loop"]
              /\ UNCHANGED << sleeping, inside, n, tries, ok >>

Loop(self) == /\ pc[self] = "Loop"
              /\ IF expected[self] # 0
                    THEN /\ pc' = [pc EXCEPT ![self] = "Wait"]
                    ELSE /\ pc' = [pc EXCEPT ![self] = "Crit"]
              /\ UNCHANGED << value, sleeping, inside, n, tries, expected, ok >>

Wait(self) == /\ pc[self] = "Wait"
              /\ IF value = 2 \/ Variant = "blindwait"
                    THEN /\ sleeping' = (sleeping \cup {self})
                         /\ pc' = [pc EXCEPT ![self] = "Sleep"]
                    ELSE /\ pc' = [pc EXCEPT ![self] = "Xchg"]
                         /\ UNCHANGED sleeping
              /\ UNCHANGED << value, inside, n, tries, expected, ok >>

Sleep(self) == /\ pc[self] = "Sleep"
               /\ self \notin sleeping
               /\ pc' = [pc EXCEPT ![self] = "Xchg"]
               /\ UNCHANGED << value, sleeping, inside, n, tries, expected, ok >>

Xchg(self) == /\ pc[self] = "Xchg"
              /\ expected' = [expected EXCEPT ![self] = value]
              /\ value' = (IF Variant = "relock1" THEN 1 ELSE 2)
              /\ pc' = [pc EXCEPT ![self] = "Loop"]
              /\ UNCHANGED << sleeping, inside, n, tries, ok >>

Crit(self) == /\ pc[self] = "Crit"
              /\ inside' = (inside \cup {self})
              /\ pc' = [pc EXCEPT ![self] = "Out"]
              /\ UNCHANGED << value, sleeping, n, tries, expected, ok >>

Out(self) == /\ pc[self] = "Out"
             /\ inside' = inside \ {self}
             /\ pc' = [pc EXCEPT ![self] = "Dec"]
             /\ UNCHANGED << value, sleeping, n, tries, expected, ok >>

Dec(self) == /\ pc[self] = "Dec"
             /\ expected' = [expected EXCEPT ![self] = value]
             /\ value' = value - 1
             /\ pc' = [pc EXCEPT ![self] = "Zero"]
             /\ UNCHANGED << sleeping, inside, n, tries, ok >>

Zero(self) == /\ pc[self] = "Zero"
              /\ IF expected[self] # 1
                    THEN /\ IF Variant # "nozero"
                               THEN /\ value' = 0
                               ELSE /\ TRUE
                                    /\ value' = value
                         /\ pc' = [pc EXCEPT ![self] = "Wake"]
                    ELSE /\ pc' = [pc EXCEPT ![self] = "Done1"]
                         /\ value' = value
              /\ UNCHANGED << sleeping, inside, n, tries, expected, ok >>

Wake(self) == /\ pc[self] = "Wake"
              /\ IF Variant # "nowake"
                    THEN /\ \E t \in (IF sleeping = {} THEN {0} ELSE sleeping):
                              sleeping' = sleeping \ {t}
                    ELSE /\ TRUE
                         /\ UNCHANGED sleeping
              /\ pc' = [pc EXCEPT ![self] = "Done1"]
              /\ UNCHANGED << value, inside, n, tries, expected, ok >>

Done1(self) == /\ pc[self] = "Done1"
               /\ n' = [n EXCEPT ![self] = n[self] + 1]
               /\ pc' = [pc EXCEPT ![self] = "NextR"]
               /\ UNCHANGED << value, sleeping, inside, tries, expected, ok >>

T(self) == NextR(self) \/ Spin(self) \/ Cas(self) \/ Slow(self)
              \/ Loop(self) \/ Wait(self) \/ Sleep(self) \/ Xchg(self)
              \/ Crit(self) \/ Out(self) \/ Dec(self) \/ Zero(self)
              \/ Wake(self) \/ Done1(self)

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == /\ \A self \in ProcSet: pc[self] = "Done"
               /\ UNCHANGED vars

Next == (\E self \in Threads: T(self))
           \/ Terminating

Spec == Init /\ [][Next]_vars

Termination == <>(\A self \in ProcSet: pc[self] = "Done")

\* END TRANSLATION

Exclusion == Cardinality(inside) <= 1
TypeOK    == value \in 0..2
Progress  == \A t \in Threads : <>(pc[t] = "Done")
FairSpec  == Spec /\ \A t \in Threads : WF_vars(T(t)) /\ SF_vars(T(t))
=============================================================================
