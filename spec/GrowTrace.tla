------------------------------ MODULE GrowTrace ------------------------------
(***************************************************************************)
(* Every growth finishes: the tables of the map form a chain of growing    *)
(* lengths, the current table only moves to its successor, and once        *)
(* nothing is running and every thread has had its turn it is the newest.  *)
(* Recorded traces of the real code: T (a new table is linked), P (a table *)
(* replaces another one as the current table), Q (all calls returned).     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Forest == JsonDeserialize(IOEnv.FOREST)
VARIABLES n, size, cur
Children(m) == IF m = 0 THEN Forest.roots ELSE Forest.ch[m]

Link(s)      == /\ Len(size) > 0 => s > size[Len(size)]
                /\ size' = Append(size, s)
                /\ UNCHANGED cur
Promote(t, u) == /\ t = cur
                 /\ u = cur + 1
                 /\ u <= Len(size)
                 /\ cur' = u
                 /\ UNCHANGED size
Quiet        == /\ cur = Len(size)
                /\ UNCHANGED <<size, cur>>

TInit == n = 0 /\ size = <<>> /\ cur = 1
Consume(c) ==
  LET e == Forest.ev[c]
  IN /\ CASE e[1] = "T" -> Link(e[2])
          [] e[1] = "P" -> Promote(e[2], e[3])
          [] e[1] = "Q" -> Quiet
          [] OTHER -> FALSE      \* "t": a table that is not empty
     /\ n' = c
     /\ IF Forest.leaf[c] THEN PrintT(<<"ACC", c>>) ELSE TRUE
TNext == \E i \in 1..Len(Children(n)) : Consume(Children(n)[i])
TSpec == TInit /\ [][TNext]_<<n, size, cur>>
=============================================================================
