------------------------------- MODULE MapOps -------------------------------
(***************************************************************************)
(* The sequential meaning of every operation of the containers, for one    *)
(* key: Effect(op, v, a, b) is the pair <<value afterwards, result>> of    *)
(* operation op with operands a and b when the key's value is v.           *)
(* For the containers, a is the number inserted.                           *)
(* ABSENT stands for "no such key", as a value and as a result.            *)
(***************************************************************************)
EXTENDS Integers, Sequences

ABSENT == -1
B(x)   == IF x THEN 1 ELSE 0

\* Public operations of the hash map.
MapOp == {"get", "has", "put", "pia", "rem", "remv", "repl", "inc"}
\* The container interface.  U: lock-free map (insert overwrites, absent has
\* a marker of its own); S: std::map and pmem wrappers (insert does not
\* overwrite, get of an absent key gives 0); I: increment is an insert.
ContOp == {"cinsU", "cinsS", "cera", "chas", "cgetU", "cgetS", "cinc", "cincI"}

Effect(op, v, a, b) ==
  CASE op = "get"  -> <<v, v>>
    [] op = "has"  -> <<v, B(v # ABSENT)>>
    [] op = "put"  -> <<a, v>>
    [] op = "pia"  -> <<IF v = ABSENT THEN a ELSE v, v>>
    [] op = "rem"  -> <<ABSENT, B(v # ABSENT)>>
    [] op = "remv" -> <<IF v = a THEN ABSENT ELSE v, B(v = a)>>
    [] op = "repl" -> <<IF v = a THEN b ELSE v, B(v = a)>>
    [] op = "inc"  -> <<(IF v = ABSENT THEN 0 ELSE v) + 1, v>>
    [] op = "cinsU" -> <<a, B(v # a)>>
    [] op = "cinsS" -> <<IF v = ABSENT THEN a ELSE v, B(v = ABSENT)>>
    [] op = "cera"  -> <<ABSENT, B(v # ABSENT)>>
    [] op = "chas"  -> <<v, B(v # ABSENT)>>
    [] op = "cgetU" -> <<v, v>>
    [] op = "cgetS" -> <<v, IF v = ABSENT THEN 0 ELSE v>>
    [] op = "cinc"  -> <<(IF v = ABSENT THEN 0 ELSE v) + 1, 0>>
    [] op = "cincI" -> <<IF v = ABSENT THEN a ELSE v, 0>>

Live(val) == {k \in DOMAIN val : val[k] # ABSENT}
=============================================================================
