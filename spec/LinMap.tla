------------------------------- MODULE LinMap -------------------------------
(***************************************************************************)
(* The abstract durable map that users rely on: concurrent operations take *)
(* effect at one instant between call and return (Lin); every key keeps    *)
(* the list of its versions; what an operation has observed and returned   *)
(* is durable (floor); a crash may roll a key back to any version not      *)
(* older than that, and recovery rebuilds exactly one such version of      *)
(* every key, nothing else.                                                *)
(***************************************************************************)
EXTENDS MapOps, FiniteSets

CONSTANTS Key,     \* keys
          Thread,  \* client threads
          TRACK,   \* TRUE: keep old versions (needed with crashes)
          FLOORS,  \* FALSE: a crash may also undo what has been observed
          DURABLE, \* TRUE: what counts is not what was read, but every update that returned
          SIZES,   \* FALSE: the reported sizes do not matter
          STALE    \* TRUE: the known finding persist-stale is admitted

VARIABLES ver,    \* key -> sequence of its values, the last one is current
          floor,  \* key -> index of the oldest version a crash may restore
          pend,   \* thread -> operation in progress
          up,     \* FALSE between a crash and the recovery
          weak    \* keys whose observed values may be lost (only if STALE)

lvars == <<ver, floor, pend, up, weak>>

None == [st |-> "none"]
Cur(k) == ver[k][Len(ver[k])]
Content == [k \in Key |-> Cur(k)]
Max2(x, y) == IF x > y THEN x ELSE y
SizeOp == {"size", "empty", "count"}

LInit == /\ ver = [k \in Key |-> <<ABSENT>>]
         /\ floor = [k \in Key |-> 1]
         /\ pend = [t \in Thread |-> None]
         /\ up = TRUE
         /\ weak = {}

\* May the result of p be anything?
Free(p) == p.op \in SizeOp /\ (~SIZES \/ (p.loose /\ p.op # "count"))
Others(t) == {u \in Thread \ {t} : pend[u].st # "none"}

\* A size is exact only if nothing else runs: loose marks one that overlaps.
Call(t, op, k, a, b) ==
  /\ up
  /\ pend[t].st = "none"
  /\ pend' = [u \in Thread |->
       IF u = t THEN [st |-> "call", op |-> op, k |-> k, a |-> a, b |-> b,
                      loose |-> op \in SizeOp /\ Others(t) # {}]
       ELSE IF pend[u].st # "none" /\ pend[u].op \in SizeOp THEN [pend[u] EXCEPT !.loose = TRUE]
       ELSE pend[u]]
  /\ UNCHANGED <<ver, floor, up, weak>>

\* What the operation of t does if it takes effect now: <<versions of its
\* key, result>>
Outcome(t) ==
  LET p == pend[t]
  IN IF p.op \in SizeOp
     THEN LET n == Cardinality(Live(Content))
          IN <<<<>>, IF p.op = "empty" THEN B(n = 0) ELSE n>>
     ELSE LET e == Effect(p.op, Cur(p.k), p.a, p.b)
          IN <<IF e[1] = Cur(p.k) THEN ver[p.k]
               ELSE IF TRACK THEN Append(ver[p.k], e[1]) ELSE <<e[1]>>, e[2]>>

\* The version that has to survive once an operation returns that found
\* version old current and made version new (old = new: it changed nothing).
Must(old, new) == IF ~DURABLE THEN old ELSE IF new > old THEN new ELSE 0

\* The operation of t takes effect (not yet returned).
Lin(t) ==
  /\ up
  /\ pend[t].st = "call"
  /\ LET p == pend[t]
         o == Outcome(t)
     IN /\ ver' = IF p.op \in SizeOp THEN ver ELSE [ver EXCEPT ![p.k] = o[1]]
        /\ pend' = [pend EXCEPT ![t] = [st |-> "done", op |-> p.op, k |-> p.k, res |-> o[2], loose |-> p.loose,
                                        obs |-> IF p.op \in SizeOp THEN 0 ELSE Must(Len(ver[p.k]), Len(o[1]))]]
  /\ UNCHANGED <<floor, up, weak>>

\* t returns r: from now on what it observed (or did) survives every crash.
Ret(t, r) ==
  /\ up
  /\ pend[t].st = "done"
  /\ Free(pend[t]) \/ pend[t].res = r
  /\ floor' = IF pend[t].op \in SizeOp \/ ~TRACK \/ pend[t].k \in weak THEN floor
              ELSE [floor EXCEPT ![pend[t].k] = Max2(@, pend[t].obs)]
  /\ pend' = [pend EXCEPT ![t] = None]
  /\ UNCHANGED <<ver, up, weak>>

\* Effect and return in one step (the last moment at which t can take effect).
LinRet(t, r) ==
  /\ up
  /\ pend[t].st = "call"
  /\ LET p == pend[t]
         o == Outcome(t)
     IN /\ Free(p) \/ o[2] = r
        /\ ver' = IF p.op \in SizeOp THEN ver ELSE [ver EXCEPT ![p.k] = o[1]]
        /\ floor' = IF p.op \in SizeOp \/ ~TRACK \/ p.k \in weak THEN floor
                    ELSE [floor EXCEPT ![p.k] = Max2(@, Must(Len(ver[p.k]), Len(o[1])))]
  /\ pend' = [pend EXCEPT ![t] = None]
  /\ UNCHANGED <<up, weak>>

\* Known finding persist-stale: the flag that says "may not be durable yet" of
\* key k was cleared by a thread that had flushed an older store of the same
\* value.  From here on, what is observed of k may be lost in a crash.
Stale(k) ==
  /\ up
  /\ weak' = IF STALE THEN weak \cup {k} ELSE weak
  /\ UNCHANGED <<ver, floor, pend, up>>

\* The map is given up (also after a crash) and an empty one is created,
\* without recovery: nothing of the old one may ever come back.
Renew(rec, n) ==
  /\ \A t \in Thread : pend[t] = None
  /\ \A k \in Key : rec[k] = ABSENT
  /\ SIZES => n = 0
  /\ ver' = [k \in Key |-> <<ABSENT>>]
  /\ floor' = [k \in Key |-> 1]
  /\ up' = TRUE
  /\ weak' = {}
  /\ UNCHANGED pend

\* A crash, possibly during recovery.
Crash ==
  /\ up' = FALSE
  /\ pend' = [t \in Thread |-> None]
  /\ UNCHANGED <<ver, floor, weak>>

Restorable(k) == {ver[k][j] : j \in (IF FLOORS THEN floor[k] ELSE 1)..Len(ver[k])}

\* Recovery yields content rec (key -> value) and size n.
Recover(rec, n) ==
  /\ ~up
  /\ \A k \in Key : rec[k] \in Restorable(k)
  /\ SIZES => n = Cardinality(Live(rec))
  /\ ver' = [k \in Key |-> <<rec[k]>>]
  /\ floor' = [k \in Key |-> 1]
  /\ up' = TRUE
  /\ weak' = {}
  /\ UNCHANGED pend

-----------------------------------------------------------------------------
\* Exploration of the abstract object itself (LinMap.cfg).
CONSTANTS Ops, Vals, MaxVer
LNext == \/ \E t \in Thread, op \in Ops, k \in Key, a, b \in Vals : Call(t, op, k, a, b)
         \/ \E t \in Thread : Lin(t)
         \/ \E t \in Thread, r \in Vals \cup {ABSENT, 0, 1} : Ret(t, r)
         \/ Crash
         \/ \E k \in Key : STALE /\ Stale(k)
         \/ \E rec \in [Key -> Vals \cup {ABSENT}] : Recover(rec, Cardinality(Live(rec)))
LSpec == LInit /\ [][LNext]_lvars

Bound == \A k \in Key : Len(ver[k]) <= MaxVer
LTypeOK == /\ \A k \in Key : floor[k] \in 1..Len(ver[k])
           /\ ~up => \A t \in Thread : pend[t] = None
\* A returned observation stays restorable only together with newer versions.
FloorMonotone == [][up /\ up' => \A k \in Key : floor'[k] >= floor[k]]_lvars
\* Recovery never invents: what is there afterwards was a version before.
NoInvention == [][~up /\ up' => \A k \in Key : ver'[k][1] \in {ver[k][j] : j \in 1..Len(ver[k])}]_lvars
=============================================================================
