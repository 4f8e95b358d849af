------------------------------ MODULE HistTrace ------------------------------
(***************************************************************************)
(* Validates histories recorded from the real code against LinMap.  All    *)
(* histories of a run are one forest (common prefixes shared): node n has  *)
(* event Forest.ev[n], children Forest.ch[n].  The specification walks     *)
(* every path; Lin steps are the only unlogged steps, taken as late as     *)
(* possible: just before a return on the same key, or before a crash.      *)
(* A history is accepted if its last node (a leaf) is reached.             *)
(***************************************************************************)
EXTENDS LinMap, TLC, Json, IOUtils

Forest == JsonDeserialize(IOEnv.FOREST)
VARIABLES n,     \* last node consumed (0: none)
          fresh  \* it was the creation of a map without recovery

TKey == 1..Forest.keys
TThread == 0..Forest.threads
TTrack == Forest.track
TFloors == Forest.floors
TDurable == Forest.durable
TSizes == Forest.sizes
TStale == Forest.stale
Children(m) == IF m = 0 THEN Forest.roots ELSE Forest.ch[m]
Ev(m) == Forest.ev[m]
Acc(m) == IF Forest.leaf[m] THEN PrintT(<<"ACC", m>>) ELSE TRUE

TInit == LInit /\ n = 0 /\ fresh = FALSE

\* Does c come next and need operations of key k to have taken effect?
Wants(c, t) ==
  LET e == Ev(c)
  IN \/ e[1] = "X"
     \/ /\ e[1] = "r"
        /\ e[2] # t
        /\ pend[e[2]].st = "call"
        /\ \/ pend[e[2]].op \in SizeOp
           \/ \E u \in Thread : pend[u].st = "call" /\ pend[u].op \in SizeOp
           \/ pend[e[2]].k = pend[t].k

Consume(c) ==
  LET e == Ev(c)
  IN /\ CASE e[1] = "c" -> Call(e[2], e[3], e[4], e[5], e[6])
          [] e[1] = "r" -> Ret(e[2], e[3]) \/ LinRet(e[2], e[3])
          [] e[1] = "B" -> Stale(e[2])
          [] e[1] = "X" -> Crash
          [] e[1] = "R" -> LET rec == [k \in Key |-> e[2][k]]
                           IN IF fresh THEN Renew(rec, e[3]) ELSE Recover(rec, e[3])
          [] e[1] = "S" -> UNCHANGED lvars   \* the thread is stopped for ever: its call may still take effect, or not
          [] e[1] = "N" -> UNCHANGED lvars   \* "R" is that of a map created without recovery
          [] OTHER      -> FALSE        \* "a": an operation failed to complete
     /\ n' = c
     /\ fresh' = (e[1] = "N")
     /\ Acc(c)

Silent(t) ==
  /\ pend[t].st = "call"
  /\ \E i \in 1..Len(Children(n)) : Wants(Children(n)[i], t)
  /\ Lin(t)
  /\ UNCHANGED <<n, fresh>>

TNext == \/ \E i \in 1..Len(Children(n)) : Consume(Children(n)[i])
         \/ \E t \in Thread : Silent(t)
TSpec == TInit /\ [][TNext]_<<lvars, n, fresh>>
=============================================================================
