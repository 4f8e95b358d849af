------------------------------ MODULE DoneTrace ------------------------------
(***************************************************************************)
(* Completion: whatever the results are, every call that was made returns, *)
(* no call fails, and recovery succeeds.  A history that ends in "a" (the  *)
(* scheduler was fair, yet an operation hung, aborted or crashed) has no   *)
(* next step; one that ends with an open call is not accepted.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Forest == JsonDeserialize(IOEnv.FOREST)
VARIABLES n, open, up
Children(m) == IF m = 0 THEN Forest.roots ELSE Forest.ch[m]

Init == n = 0 /\ open = {} /\ up = TRUE
Consume(c) ==
  LET e == Forest.ev[c]
  IN /\ CASE e[1] = "c" -> up /\ e[2] \notin open /\ open' = open \cup {e[2]} /\ up' = up
          [] e[1] = "r" -> up /\ e[2] \in open /\ open' = open \ {e[2]} /\ up' = up
          [] e[1] = "X" -> open' = {} /\ up' = FALSE
          [] e[1] = "R" -> open' = {} /\ up' = TRUE
          [] e[1] = "B" -> UNCHANGED <<open, up>>
          [] e[1] = "S" -> open' = open \ {e[2]} /\ up' = up      \* the thread is stopped for ever
          [] e[1] = "N" -> open = {} /\ UNCHANGED <<open, up>>
          [] OTHER -> FALSE
     /\ n' = c
     /\ IF Forest.leaf[c] /\ open' = {} /\ up' THEN PrintT(<<"ACC", c>>) ELSE TRUE
Next == \E i \in 1..Len(Children(n)) : Consume(Children(n)[i])
Spec == Init /\ [][Next]_<<n, open, up>>
TypeOK == open # {} => up
=============================================================================
