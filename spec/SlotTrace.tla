------------------------------ MODULE SlotTrace ------------------------------
(***************************************************************************)
(* Validates recorded changes of the table memory of the real code against *)
(* Slots: every change of a word must be one of its actions.               *)
(***************************************************************************)
EXTENDS Slots, TLC, Json, IOUtils

Forest == JsonDeserialize(IOEnv.FOREST)
VARIABLE n
TKeys == 1..Forest.keys
TSizes == <<>>
Children(m) == IF m = 0 THEN Forest.roots ELSE Forest.ch[m]

TInit == SInit /\ n = 0
Consume(c) ==
  LET e == Forest.ev[c]
  IN /\ CASE e[1] = "T" -> NewTable(e[2])
          [] e[1] = "P" -> Switch(e[2], e[3])
          [] e[1] = "K" -> IF e[4] = SHUT THEN Shut(e[2], e[3]) ELSE Claim(e[2], e[3], e[4])
          [] e[1] = "V" ->
               LET w == val[e[2]][e[3]]
               IN CASE e[5] = 0 -> Store(e[2], e[3], e[4]) \/ Copy(e[2], e[3], e[4])
                    [] e[5] = 1 /\ ~w.m -> e[4] = w.v /\ Freeze(e[2], e[3])
                    [] OTHER -> e[4] = GONE /\ Drop(e[2], e[3])
          [] OTHER -> FALSE      \* "t": a table that is not empty
     /\ n' = c
     /\ IF Forest.leaf[c] THEN PrintT(<<"ACC", c>>) ELSE TRUE
TNext == \E i \in 1..Len(Children(n)) : Consume(Children(n)[i])
TSpec == TInit /\ [][TNext]_<<svars, n>>
=============================================================================
