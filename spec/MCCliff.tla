------------------------------ MODULE MCCliff ------------------------------
(* Small instances of CliffMap: two threads, every pair of programs below. *)
EXTENDS CliffMap
CONSTANTS Ops1, Ops2, Setups   \* what the threads may do; the tables they start with
MCHome(k, len) == k
MCCrowded(probed, n, len) == probed >= 1 /\ n >= len
\* Calls on key k that write v.
Calls(k, v, old) ==
  { <<"get", k, 0, 0>>, <<"put", k, v, WHATEVER>>, <<"pia", k, v, GONE>>, <<"rem", k, GONE, ANY>>,
    <<"repl", k, v, ANY>>, <<"replv", k, v, old>>, <<"remv", k, GONE, old>> }
Choose(names, p, j) == {c \in UNION {Calls(k, 10 * p + j, 4 + k) : k \in Keys} : <<c[1], c[2]>> \in names}
One(names, p) == {<<c>> : c \in Choose(names, p, 1)}
MCCases == {[prog |-> <<a, b>>, setup |-> s] : a \in One(Ops1, 1), b \in One(Ops2, 2), s \in Setups}
Names == {"get", "put", "pia", "rem", "repl", "replv", "remv"}
Old(k) == <<k, 4 + k>>
All == Names \X Keys
Few == {"get", "put", "pia", "rem", "replv"} \X {1, 3}
Fewest == {<<"get", 1>>, <<"put", 1>>, <<"put", 3>>}
Grow3 == {<<"put", 3>>}
\* Two growths in a row: one thread causes them, the other one acts before, between or after them.
P(p, j, nm, k) == CHOOSE c \in Choose({<<nm, k>>}, p, j) : TRUE
MCNested == {[prog |-> <<a, b>>, setup |-> s] :
               a \in {<<P(1, 1, "put", 2)>>, <<P(1, 1, "put", 2), P(1, 2, "put", 3)>>},
               b \in {<<P(2, 1, nm, 1), P(2, 2, "put", 3)>> : nm \in Names} \cup {<<P(2, 1, "put", 3), P(2, 2, nm, 1)>> : nm \in Names},
               s \in Setups}
MCNone == {}
One1 == {<<Old(1)>>, <<<<1, GONE>>>>}
L124 == <<1, 2, 4>>
L1248 == <<1, 2, 4, 8>>
Setups2 == {<<Old(1), Old(2)>>, <<Old(1), <<2, GONE>>>>, <<Old(1)>>, <<>>}
One2 == {<<<<1, GONE>>, Old(2)>>}
Full2 == {<<Old(1), Old(2)>>, <<<<1, GONE>>, Old(2)>>, <<<<1, GONE>>, <<2, GONE>>>>}
-----------------------------------------------------------------------------
L24 == <<2, 4>>
Done == \A q \in Threads : pc[q] = "Done"
S == INSTANCE Slots WITH Sizes <- Lens, Vals <- 2..99
\* What the tables hold is what the calls have done.
Refines == \A k \in Keys : S!Content(k) = Now(k)
Structure == S!OneSlot /\ S!OneHome /\ S!OldSettled
\* Every change of a word is one that the rules allow.
Slot == {<<x, y>> \in (1..Newest) \X (1..Lens[Len(Lens)]) : y <= size[x]}
Rules == [][IF size' # size THEN S!NewTable(size'[Len(size')])
            ELSE IF cur' # cur THEN S!Switch(cur, cur')
            ELSE IF key' # key THEN \E s \in Slot : key'[s[1]][s[2]] # key[s[1]][s[2]] /\ (S!Claim(s[1], s[2], key'[s[1]][s[2]]) \/ S!Shut(s[1], s[2]))
            ELSE \E s \in Slot : LET w == val'[s[1]][s[2]] IN w # val[s[1]][s[2]] /\
                   (S!Freeze(s[1], s[2]) \/ S!Drop(s[1], s[2]) \/ S!Copy(s[1], s[2], w.v) \/ S!Store(s[1], s[2], w.v))]_<<size, key, val, cur>>
Size == Done => count = Cardinality({k \in Keys : Present(Now(k))})
Return == <>Done
=============================================================================
