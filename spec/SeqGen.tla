------------------------------- MODULE SeqGen -------------------------------
(***************************************************************************)
(* Generates call sequences of one client together with the results that  *)
(* MapOps prescribes.  TLC enumerates them all (small constants) or        *)
(* simulates (large ones); the check replays each into the real code and   *)
(* compares every result.                                                  *)
(***************************************************************************)
EXTENDS MapOps, FiniteSets, TLC, Json, IOUtils

Cfg == JsonDeserialize(IOEnv.SEQCFG)   \* keys, depth, vals, ops, fill, cont, fillop, random, big
\* Simulation draws operands at random instead of enumerating them.
Some(S) == IF Cfg.random THEN {RandomElement(S)} ELSE S
Keys == 1..Cfg.keys
Vals == {Cfg.vals[i] : i \in 1..Len(Cfg.vals)}
Ops == {Cfg.ops[i] : i \in 1..Len(Cfg.ops)}

VARIABLES m,    \* key -> value
          h,    \* the calls so far with their results
          done
vars == <<m, h, done>>

\* The value that a container stores for key k (large keys are recorded so).
KV(k) == IF Cfg.big THEN 200000 + 100 * k ELSE k

\* A fill of the first p keys comes first.
Fill(k) == IF Cfg.cont THEN <<Cfg.fillop, k, KV(k), 0, Effect(Cfg.fillop, ABSENT, KV(k), 0)[2]>>
           ELSE <<"put", k, 100 + k, 0, ABSENT>>
FillVal(k) == IF Cfg.cont THEN KV(k) ELSE 100 + k
Init == /\ \E p \in {x \in {Cfg.fill[i] : i \in 1..Len(Cfg.fill)} : x <= Cfg.keys} :
             /\ m = [k \in Keys |-> IF k <= p THEN FillVal(k) ELSE ABSENT]
             /\ h = [k \in 1..p |-> Fill(k)]
        /\ done = FALSE

\* Operands: some values, and for the conditional operations the current one.
A(op, k) == IF Cfg.cont THEN {KV(k)}
            ELSE IF op \in {"put", "pia"} THEN Vals
            ELSE IF op \in {"remv", "repl"} THEN Vals \cup ({m[k]} \ {ABSENT})
            ELSE {0}
Bs(op) == IF op = "repl" THEN Vals ELSE {0}

Step(op, k, a, b) ==
  LET e == IF op \in {"size", "count"} THEN <<m[k], Cardinality(Live(m))>>
           ELSE IF op = "empty" THEN <<m[k], B(Live(m) = {})>> ELSE Effect(op, m[k], a, b)
  IN /\ m' = [m EXCEPT ![k] = e[1]]
     /\ h' = Append(h, <<op, k, a, b, e[2]>>)
     /\ done' = FALSE

Emit == /\ Len(h) >= Cfg.depth
        /\ ~done
        /\ PrintT(<<"SEQ", ToJson(h)>>)
        /\ done' = TRUE
        /\ UNCHANGED <<m, h>>

Next == \/ /\ Len(h) < Cfg.depth
           /\ \E op \in Ops : \E k \in Some(Keys) : \E a \in Some(A(op, k)), b \in Some(Bs(op)) : Step(op, k, a, b)
        \/ Emit
Spec == Init /\ [][Next]_vars
TypeOK == Len(h) <= Cfg.depth + Cfg.keys
=============================================================================
