------------------------------- MODULE Slots -------------------------------
(***************************************************************************)
(* The shared memory of the lock-free hash map: a chain of tables, each an *)
(* array of slots with a key word and a value word, and the pointer to the *)
(* current table.  The specification says which changes of a word are      *)
(* allowed (the "rules" of the header comment of hashMap.hpp, in terms of  *)
(* what they protect), and that only client stores change what the map     *)
(* contains: claiming a key, freezing, copying, dropping and switching     *)
(* over never do.                                                          *)
(* The dirty flag is left out: it only says what may not be durable yet.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Keys   \* numbers of the keys

VARIABLES size,  \* size[t]: number of slots of table t
          key,   \* key[t][i]: 0 free, -1 closed for ever, otherwise a key
          val,   \* val[t][i] = [v |-> value, m |-> frozen for migration]
          cur    \* the current table

svars == <<size, key, val, cur>>

FREE  == 0
SHUT  == -1
NONE  == 0     \* no value was ever stored
GONE  == 1     \* removed
Empty == [v |-> NONE, m |-> FALSE]

Tables == 1..Len(size)
Newest == Len(size)
SlotOf(t, k) == {i \in 1..size[t] : key[t][i] = k}
IsSettled(w) == w.m /\ w.v \in {NONE, GONE}   \* nothing to migrate (any more)
Has(t, k)  == \E i \in SlotOf(t, k) : val[t][i].v # NONE
Later(t, k) == {u \in (t + 1)..Newest : Has(u, k)}
Earliest(S) == CHOOSE x \in S : \A y \in S : x <= y

\* What the map contains for key k, looked up from table t on.
RECURSIVE Lookup(_, _)
Lookup(t, k) ==
  IF t > Newest THEN GONE
  ELSE LET S == SlotOf(t, k)
       IN IF S = {} THEN Lookup(t + 1, k)
          ELSE LET w == val[t][CHOOSE i \in S : TRUE]
               IN CASE ~w.m -> IF w.v = NONE THEN GONE ELSE w.v
                    [] w.m /\ w.v \in {NONE, GONE} -> Lookup(t + 1, k)
                    [] OTHER -> IF Later(t, k) = {} THEN w.v ELSE Lookup(Earliest(Later(t, k)), k)
Content(k) == Lookup(cur, k)

SInit == size = <<>> /\ key = <<>> /\ val = <<>> /\ cur = 1

\* A larger table is put to use, as the successor of the newest one.
NewTable(n) ==
  /\ Newest > 0 => n > size[Newest]
  /\ size' = Append(size, n)
  /\ key' = Append(key, [i \in 1..n |-> FREE])
  /\ val' = Append(val, [i \in 1..n |-> Empty])
  /\ UNCHANGED cur

\* A free slot gets its key, for ever.  No other slot of the table has that
\* key, and no newer table has taken over the key already.
Claim(t, i, k) ==
  /\ key[t][i] = FREE
  /\ k \in Keys
  /\ SlotOf(t, k) = {}
  /\ Later(t, k) = {}
  /\ key' = [key EXCEPT ![t][i] = k]
  /\ UNCHANGED <<size, val, cur>>

\* A free slot of a table that is being migrated is closed.
Shut(t, i) ==
  /\ t < Newest
  /\ key[t][i] = FREE
  /\ key' = [key EXCEPT ![t][i] = SHUT]
  /\ UNCHANGED <<size, val, cur>>

\* The older tables have handed over key k: each entry of it is frozen, and
\* it is a tombstone, or a newer table has a value for k.
HandedOver(t, k) ==
  \A u \in 1..(t - 1) : \A i \in SlotOf(u, k) :
     val[u][i].m /\ (val[u][i].v \in {NONE, GONE} \/ Later(u, k) # {})

Put(t, i, v) == val' = [val EXCEPT ![t][i].v = v] /\ UNCHANGED <<size, key, cur>>

\* A client changes the content.
Store(t, i, v) ==
  /\ key[t][i] \in Keys
  /\ ~val[t][i].m
  /\ v # NONE
  /\ HandedOver(t, key[t][i])
  /\ Put(t, i, v)

\* An entry is migrated: the slot never had a value.
Copy(t, i, v) ==
  /\ key[t][i] \in Keys
  /\ val[t][i] = Empty
  /\ ~HandedOver(t, key[t][i])
  /\ v \notin {NONE, GONE}
  /\ \A u \in 1..(t - 1) : \A j \in SlotOf(u, key[t][i]) : val[u][j].m
  /\ v = Content(key[t][i])
  /\ Put(t, i, v)

\* The entry is handed over: no further value is stored here.
Freeze(t, i) ==
  /\ t < Newest
  /\ ~val[t][i].m
  /\ val' = [val EXCEPT ![t][i].m = TRUE]
  /\ UNCHANGED <<size, key, cur>>

\* The old copy is removed: a newer table has a value of that key.
Drop(t, i) ==
  /\ val[t][i].m
  /\ val[t][i].v \notin {NONE, GONE}
  /\ Later(t, key[t][i]) # {}
  /\ val' = [val EXCEPT ![t][i].v = GONE]
  /\ UNCHANGED <<size, key, cur>>

\* The successor becomes the current table.
Switch(t, u) ==
  /\ t = cur
  /\ u = cur + 1
  /\ u \in Tables
  /\ \A i \in 1..size[t] : IsSettled(val[t][i])
  /\ cur' = u
  /\ UNCHANGED <<size, key, val>>

-----------------------------------------------------------------------------
\* Exploration of the rules themselves (Slots.cfg).
CONSTANTS Sizes, Vals
Internal == \/ \E t \in Tables : \E i \in 1..size[t], k \in Keys : Claim(t, i, k)
            \/ \E t \in Tables : \E i \in 1..size[t] : Shut(t, i) \/ Freeze(t, i) \/ Drop(t, i)
            \/ \E t \in Tables : \E i \in 1..size[t] : \E v \in Vals : Copy(t, i, v)
            \/ Newest < Len(Sizes) /\ NewTable(Sizes[Newest + 1])
            \/ Switch(cur, cur + 1)
Client(t, i, v) == Newest > 0 /\ Store(t, i, v)
SNext == Internal \/ \E t \in Tables : \E i \in 1..size[t] : \E v \in Vals \cup {GONE} : Client(t, i, v)
SSpec == SInit /\ [][SNext]_svars

OneSlot == \A t \in Tables, k \in Keys : Cardinality(SlotOf(t, k)) <= 1
\* At most one table accepts updates of a key, and no frozen copy is newer.
OneHome == \A k \in Keys : \A t, u \in Tables :
             t < u /\ Has(u, k) => \A i \in SlotOf(t, k) : val[t][i].m
CurOK == Newest > 0 => cur \in Tables
\* A key, once set, never changes; a frozen slot never takes another value.
KeyForever == [][\A t \in Tables : \A i \in 1..size[t] : key[t][i] # FREE => key'[t][i] = key[t][i]]_svars
FrozenForever == [][\A t \in Tables : \A i \in 1..size[t] : val[t][i].m => val'[t][i].m /\ val'[t][i].v \in {val[t][i].v, GONE}]_svars
\* Only client stores change the content, and they change it to what they store.
InternalKeeps == [][Newest > 0 /\ (\A k \in Keys : TRUE) /\ Internal => \A k \in Keys : Content(k)' = Content(k)]_svars
ClientStores == [][\A t \in Tables : \A i \in 1..size[t] : \A v \in Vals \cup {GONE} :
                     Client(t, i, v) => \A k \in Keys : Content(k)' = IF k = key[t][i] THEN v ELSE Content(k)]_svars
\* Nothing is lost with the tables before the current one.
OldSettled == \A t \in 1..(cur - 1) : \A i \in 1..size[t] : IsSettled(val[t][i])
=============================================================================
