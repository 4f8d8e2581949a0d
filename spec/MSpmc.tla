-------------------------------- MODULE MSpmc --------------------------------
(***************************************************************************)
(* Mechanism model: context_spmc_queue, the Chase-Lev deque behind         *)
(* work_stealing, one atomic access per step.  The owner pushes and pops   *)
(* at the bottom, thieves take from the top; the array doubles when it is  *)
(* full and the old arrays stay readable.  Slots carry a pinned mark       *)
(* (main and dispatcher fibers), which a thief must leave alone; a thief   *)
(* may read a slot that is outdated and decides by its compare-exchange.   *)
(*                                                                         *)
(* MEM = "tso": the owner's stores go through a store buffer (x86); the    *)
(* seq_cst fence of pop and the compare-exchanges drain it.                *)
(*                                                                         *)
(* Property A03: every context leaves the queue at most once, only pushed  *)
(* ones do, pinned ones only through the owner, and none is lost: what was *)
(* pushed and not taken lies between top and bottom when all is quiet.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils

Env(k, d) == IF k \in DOMAIN IOEnv THEN IOEnv[k] ELSE d
Variant == Env("VARIANT", "code")
Tso     == Env("MEM", "tso") = "tso"
Items   == atoi(Env("ITEMS", "3"))
NThief  == atoi(Env("THIEVES", "2"))
Steals  == atoi(Env("STEALS", "2"))
Pinned  == {2}
Thieves == 1..NThief
BOT     == <<0, 0>>   \* addresses in the store buffer; a slot is <<array, index>>
CUR     == <<0, 1>>

(* --algorithm spmc
variables
  top = 0, bottom = 0, cur = 1,                         \* shared memory
  arrays = <<[cap |-> 2, s |-> [i \in 0..1 |-> 0]]>>,
  buf = <<>>,                                           \* the owner's store buffer
  pushed = 0, taken = <<>>;                             \* ghosts: <<item, by>>

define
  At(a, i) == arrays[a].s[i % arrays[a].cap]
  \* what the owner itself reads: the youngest buffered store or memory
  Own(k, m) == LET h == {i \in DOMAIN buf : buf[i][1] = k} IN IF h = {} THEN m ELSE buf[CHOOSE i \in h : \A j \in h : j <= i][2]
  OwnAt(a, i) == LET k == <<a, i % arrays[a].cap>>
                     h == {x \in DOMAIN buf : buf[x][1] = k} IN IF h = {} THEN At(a, i) ELSE buf[CHOOSE x \in h : \A y \in h : y <= x][2]
end define;

macro put(k, v) begin
  await Tso \/ buf = <<>>;
  buf := Append(buf, <<k, v>>);
end macro;

process Drain = 100
begin
D: while TRUE do
     await buf # <<>>;
     with e = Head(buf) do
       if e[1] = BOT then bottom := e[2];
       elsif e[1] = CUR then cur := e[2];
       else arrays[e[1][1]].s[e[1][2]] := e[2];
       end if;
     end with;
     buf := Tail(buf);
   end while;
end process;

process Owner = 0
variables b = 0, t = 0, a = 1, item = 0;
begin
Op: while pushed < Items \/ b >= 0 do
      either
        await pushed < Items;
        b := Own(BOT, bottom);
PTop:   t := top;
PGrow:  a := Own(CUR, cur);
PFull:  if (IF Variant = "fulllate" THEN arrays[a].cap < b - t ELSE arrays[a].cap - 1 < b - t) then
          arrays := Append(arrays, [cap |-> 2 * arrays[a].cap, s |-> [i \in 0..(2 * arrays[a].cap - 1) |->
                       LET h == {j \in t..(b - 1) : j % (2 * arrays[a].cap) = i} IN
                       IF h = {} THEN 0 ELSE OwnAt(a, (CHOOSE j \in h : TRUE) + (IF Variant = "growoff" THEN 1 ELSE 0))]]);
PCur:     put(CUR, a + 1);
          a := a + 1;
        end if;
PSlot:  if Variant = "publishfirst" then put(BOT, b + 1); else put(<<a, b % arrays[a].cap>>, pushed + 1); end if;
PBot:   if Variant = "publishfirst" then put(<<a, b % arrays[a].cap>>, pushed + 1); else put(BOT, b + 1); end if;
        pushed := pushed + 1;
      or
        await pushed > 0;
        b := Own(BOT, bottom) - 1;
        a := Own(CUR, cur);
QBot:   put(BOT, b);
QFence: await buf = <<>> \/ Variant = "nofence";
        t := top;
QRead:  item := IF t <= b THEN OwnAt(a, b) ELSE 0;
        if t <= b then
          if t = b then
QCas:       await buf = <<>>;
            if Variant = "nocas" then top := t + 1;
            elsif top = t then top := t + 1;
            else item := 0;
            end if;
QFix:       put(BOT, b + 1);
          end if;
        else
QEmpty:   put(BOT, b + 1);
        end if;
QTake:  if item # 0 then taken := Append(taken, <<item, 0>>); end if;
      or
        await pushed = Items;
        b := -1;
      end either;
    end while;
end process;

process Thief \in Thieves
variables n = 0, tt = 0, bb = 0, aa = 1, it = 0;
begin
S: while n < Steals do
     tt := top;
SBot:bb := bottom;
     if tt < bb then
SArr:  aa := cur;
SSlot: it := At(aa, tt);
       if it \in Pinned /\ Variant # "stealpinned" then
         goto SEnd;
       end if;
SCas:  if top = tt \/ Variant = "nothiefcas" then
         top := tt + 1;
         taken := Append(taken, <<it, self>>);
       end if;
     end if;
SEnd:n := n + 1;
   end while;
end process;
end algorithm; *)
\* BEGIN TRANSLATION
VARIABLES pc, top, bottom, cur, arrays, buf, pushed, taken

(* define statement *)
At(a, i) == arrays[a].s[i % arrays[a].cap]

Own(k, m) == LET h == {i \in DOMAIN buf : buf[i][1] = k} IN IF h = {} THEN m ELSE buf[CHOOSE i \in h : \A j \in h : j <= i][2]
OwnAt(a, i) == LET k == <<a, i % arrays[a].cap>>
                   h == {x \in DOMAIN buf : buf[x][1] = k} IN IF h = {} THEN At(a, i) ELSE buf[CHOOSE x \in h : \A y \in h : y <= x][2]

VARIABLES b, t, a, item, n, tt, bb, aa, it

vars == << pc, top, bottom, cur, arrays, buf, pushed, taken, b, t, a, item, n, 
           tt, bb, aa, it >>

ProcSet == {100} \cup {0} \cup (Thieves)

Init == (* Global variables *)
        /\ top = 0
        /\ bottom = 0
        /\ cur = 1
        /\ arrays = <<[cap |-> 2, s |-> [i \in 0..1 |-> 0]]>>
        /\ buf = <<>>
        /\ pushed = 0
        /\ taken = <<>>
        (* Process Owner *)
        /\ b = 0
        /\ t = 0
        /\ a = 1
        /\ item = 0
        (* Process Thief *)
        /\ n = [self \in Thieves |-> 0]
        /\ tt = [self \in Thieves |-> 0]
        /\ bb = [self \in Thieves |-> 0]
        /\ aa = [self \in Thieves |-> 1]
        /\ it = [self \in Thieves |-> 0]
        /\ pc = [self \in ProcSet |-> CASE self = 100 -> "D"
                                        [] self = 0 -> "Op"
                                        [] self \in Thieves -> "S"]

D == /\ pc[100] = "D"
     /\ buf # <<>>
     /\ LET e == Head(buf) IN
          IF e[1] = BOT
             THEN /\ bottom' = e[2]
                  /\ UNCHANGED << cur, arrays >>
             ELSE /\ IF e[1] = CUR
                        THEN /\ cur' = e[2]
                             /\ UNCHANGED arrays
                        ELSE /\ arrays' = [arrays EXCEPT ![e[1][1]].s[e[1][2]] = e[2]]
                             /\ cur' = cur
                  /\ UNCHANGED bottom
     /\ buf' = Tail(buf)
     /\ pc' = [pc EXCEPT ![100] = "D"]
     /\ UNCHANGED << top, pushed, taken, b, t, a, item, n, tt, bb, aa, it >>

Drain == D

Op == /\ pc[0] = "Op"
      /\ IF pushed < Items \/ b >= 0
            THEN /\ \/ /\ pushed < Items
                       /\ b' = Own(BOT, bottom)
                       /\ pc' = [pc EXCEPT ![0] = "PTop"]
                       /\ a' = a
                    \/ /\ pushed > 0
                       /\ b' = Own(BOT, bottom) - 1
                       /\ a' = Own(CUR, cur)
                       /\ pc' = [pc EXCEPT ![0] = "QBot"]
                    \/ /\ pushed = Items
                       /\ b' = -1
                       /\ pc' = [pc EXCEPT ![0] = "Op"]
                       /\ a' = a
            ELSE /\ pc' = [pc EXCEPT ![0] = "Done"]
                 /\ UNCHANGED << b, a >>
      /\ UNCHANGED << top, bottom, cur, arrays, buf, pushed, taken, t, item, n, 
                      tt, bb, aa, it >>

PTop == /\ pc[0] = "PTop"
        /\ t' = top
        /\ pc' = [pc EXCEPT ![0] = "PGrow"]
        /\ UNCHANGED << top, bottom, cur, arrays, buf, pushed, taken, b, a, 
                        item, n, tt, bb, aa, it >>

PGrow == /\ pc[0] = "PGrow"
         /\ a' = Own(CUR, cur)
         /\ pc' = [pc EXCEPT ![0] = "PFull"]
         /\ UNCHANGED << top, bottom, cur, arrays, buf, pushed, taken, b, t, 
                         item, n, tt, bb, aa, it >>

PFull == /\ pc[0] = "PFull"
         /\ IF (IF Variant = "fulllate" THEN arrays[a].cap < b - t ELSE arrays[a].cap - 1 < b - t)
               THEN /\ arrays' = Append(arrays, [cap |-> 2 * arrays[a].cap, s |-> [i \in 0..(2 * arrays[a].cap - 1) |->
                                    LET h == {j \in t..(b - 1) : j % (2 * arrays[a].cap) = i} IN
                                    IF h = {} THEN 0 ELSE OwnAt(a, (CHOOSE j \in h : TRUE) + (IF Variant = "growoff" THEN 1 ELSE 0))]])
                    /\ pc' = [pc EXCEPT ![0] = "PCur"]
               ELSE /\ pc' = [pc EXCEPT ![0] = "PSlot"]
                    /\ UNCHANGED arrays
         /\ UNCHANGED << top, bottom, cur, buf, pushed, taken, b, t, a, item, 
                         n, tt, bb, aa, it >>

PCur == /\ pc[0] = "PCur"
        /\ Tso \/ buf = <<>>
        /\ buf' = Append(buf, <<CUR, (a + 1)>>)
        /\ a' = a + 1
        /\ pc' = [pc EXCEPT ![0] = "PSlot"]
        /\ UNCHANGED << top, bottom, cur, arrays, pushed, taken, b, t, item, n, 
                        tt, bb, aa, it >>

PSlot == /\ pc[0] = "PSlot"
         /\ IF Variant = "publishfirst"
               THEN /\ Tso \/ buf = <<>>
                    /\ buf' = Append(buf, <<BOT, (b + 1)>>)
               ELSE /\ Tso \/ buf = <<>>
                    /\ buf' = Append(buf, <<(<<a, b % arrays[a].cap>>), (pushed + 1)>>)
         /\ pc' = [pc EXCEPT ![0] = "PBot"]
         /\ UNCHANGED << top, bottom, cur, arrays, pushed, taken, b, t, a, 
                         item, n, tt, bb, aa, it >>

PBot == /\ pc[0] = "PBot"
        /\ IF Variant = "publishfirst"
              THEN /\ Tso \/ buf = <<>>
                   /\ buf' = Append(buf, <<(<<a, b % arrays[a].cap>>), (pushed + 1)>>)
              ELSE /\ Tso \/ buf = <<>>
                   /\ buf' = Append(buf, <<BOT, (b + 1)>>)
        /\ pushed' = pushed + 1
        /\ pc' = [pc EXCEPT ![0] = "Op"]
        /\ UNCHANGED << top, bottom, cur, arrays, taken, b, t, a, item, n, tt, 
                        bb, aa, it >>

QBot == /\ pc[0] = "QBot"
        /\ Tso \/ buf = <<>>
        /\ buf' = Append(buf, <<BOT, b>>)
        /\ pc' = [pc EXCEPT ![0] = "QFence"]
        /\ UNCHANGED << top, bottom, cur, arrays, pushed, taken, b, t, a, item, 
                        n, tt, bb, aa, it >>

QFence == /\ pc[0] = "QFence"
          /\ buf = <<>> \/ Variant = "nofence"
          /\ t' = top
          /\ pc' = [pc EXCEPT ![0] = "QRead"]
          /\ UNCHANGED << top, bottom, cur, arrays, buf, pushed, taken, b, a, 
                          item, n, tt, bb, aa, it >>

QRead == /\ pc[0] = "QRead"
         /\ item' = (IF t <= b THEN OwnAt(a, b) ELSE 0)
         /\ IF t <= b
               THEN /\ IF t = b
                          THEN /\ pc' = [pc EXCEPT ![0] = "QCas"]
                          ELSE /\ pc' = [pc EXCEPT ![0] = "QTake"]
               ELSE /\ pc' = [pc EXCEPT ![0] = "QEmpty"]
         /\ UNCHANGED << top, bottom, cur, arrays, buf, pushed, taken, b, t, a, 
                         n, tt, bb, aa, it >>

QEmpty == /\ pc[0] = "QEmpty"
          /\ Tso \/ buf = <<>>
          /\ buf' = Append(buf, <<BOT, (b + 1)>>)
          /\ pc' = [pc EXCEPT ![0] = "QTake"]
          /\ UNCHANGED << top, bottom, cur, arrays, pushed, taken, b, t, a, 
                          item, n, tt, bb, aa, it >>

QCas == /\ pc[0] = "QCas"
        /\ buf = <<>>
        /\ IF Variant = "nocas"
              THEN /\ top' = t + 1
                   /\ item' = item
              ELSE /\ IF top = t
                         THEN /\ top' = t + 1
                              /\ item' = item
                         ELSE /\ item' = 0
                              /\ top' = top
        /\ pc' = [pc EXCEPT ![0] = "QFix"]
        /\ UNCHANGED << bottom, cur, arrays, buf, pushed, taken, b, t, a, n, 
                        tt, bb, aa, it >>

QFix == /\ pc[0] = "QFix"
        /\ Tso \/ buf = <<>>
        /\ buf' = Append(buf, <<BOT, (b + 1)>>)
        /\ pc' = [pc EXCEPT ![0] = "QTake"]
        /\ UNCHANGED << top, bottom, cur, arrays, pushed, taken, b, t, a, item, 
                        n, tt, bb, aa, it >>

QTake == /\ pc[0] = "QTake"
         /\ IF item # 0
               THEN /\ taken' = Append(taken, <<item, 0>>)
               ELSE /\ TRUE
                    /\ taken' = taken
         /\ pc' = [pc EXCEPT ![0] = "Op"]
         /\ UNCHANGED << top, bottom, cur, arrays, buf, pushed, b, t, a, item, 
                         n, tt, bb, aa, it >>

Owner == Op \/ PTop \/ PGrow \/ PFull \/ PCur \/ PSlot \/ PBot \/ QBot
            \/ QFence \/ QRead \/ QEmpty \/ QCas \/ QFix \/ QTake

S(self) == /\ pc[self] = "S"
           /\ IF n[self] < Steals
                 THEN /\ tt' = [tt EXCEPT ![self] = top]
                      /\ pc' = [pc EXCEPT ![self] = "SBot"]
                 ELSE /\ pc' = [pc EXCEPT ![self] = "Done"]
                      /\ tt' = tt
           /\ UNCHANGED << top, bottom, cur, arrays, buf, pushed, taken, b, t, 
                           a, item, n, bb, aa, it >>

SBot(self) == /\ pc[self] = "SBot"
              /\ bb' = [bb EXCEPT ![self] = bottom]
              /\ IF tt[self] < bb'[self]
                    THEN /\ pc' = [pc EXCEPT ![self] = "SArr"]
                    ELSE /\ pc' = [pc EXCEPT ![self] = "SEnd"]
              /\ UNCHANGED << top, bottom, cur, arrays, buf, pushed, taken, b, 
                              t, a, item, n, tt, aa, it >>

SArr(self) == /\ pc[self] = "SArr"
              /\ aa' = [aa EXCEPT ![self] = cur]
              /\ pc' = [pc EXCEPT ![self] = "SSlot"]
              /\ UNCHANGED << top, bottom, cur, arrays, buf, pushed, taken, b, 
                              t, a, item, n, tt, bb, it >>

SSlot(self) == /\ pc[self] = "SSlot"
               /\ it' = [it EXCEPT ![self] = At(aa[self], tt[self])]
               /\ IF it'[self] \in Pinned /\ Variant # "stealpinned"
                     THEN /\ pc' = [pc EXCEPT ![self] = "SEnd"]
                     ELSE /\ pc' = [pc EXCEPT ![self] = "SCas"]
               /\ UNCHANGED << top, bottom, cur, arrays, buf, pushed, taken, b, 
                               t, a, item, n, tt, bb, aa >>

SCas(self) == /\ pc[self] = "SCas"
              /\ IF top = tt[self] \/ Variant = "nothiefcas"
                    THEN /\ top' = tt[self] + 1
                         /\ taken' = Append(taken, <<it[self], self>>)
                    ELSE /\ TRUE
                         /\ UNCHANGED << top, taken >>
              /\ pc' = [pc EXCEPT ![self] = "SEnd"]
              /\ UNCHANGED << bottom, cur, arrays, buf, pushed, b, t, a, item, 
                              n, tt, bb, aa, it >>

SEnd(self) == /\ pc[self] = "SEnd"
              /\ n' = [n EXCEPT ![self] = n[self] + 1]
              /\ pc' = [pc EXCEPT ![self] = "S"]
              /\ UNCHANGED << top, bottom, cur, arrays, buf, pushed, taken, b, 
                              t, a, item, tt, bb, aa, it >>

Thief(self) == S(self) \/ SBot(self) \/ SArr(self) \/ SSlot(self)
                  \/ SCas(self) \/ SEnd(self)

Next == Drain \/ Owner
           \/ (\E self \in Thieves: Thief(self))

Spec == Init /\ [][Next]_vars

\* END TRANSLATION

Once    == \A i, j \in DOMAIN taken : taken[i][1] = taken[j][1] => i = j
Pushed  == \A i \in DOMAIN taken : taken[i][1] \in 1..Items
Stays   == \A i \in DOMAIN taken : taken[i][1] \in Pinned => taken[i][2] = 0
Quiet   == buf = <<>> /\ pc[0] \in {"Op", "Done"} /\ \A p \in Thieves : pc[p] \in {"S", "Done"}
Nothing == Quiet => LET got == {taken[i][1] : i \in DOMAIN taken}
                        in  == {At(cur, i) : i \in top..(bottom - 1)} IN
                    /\ got \cap in = {}
                    /\ got \cup in = 1..pushed
                    /\ top <= bottom
Bound   == pushed <= Items /\ Len(taken) <= Items
=============================================================================
