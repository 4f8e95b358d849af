------------------------------ MODULE CliffMap ------------------------------
(***************************************************************************)
(* The algorithm of the lock-free hash map (containers/cliffMap), one step *)
(* per access to shared memory: probing, claiming a slot, storing, linking *)
(* a larger table, freezing, copying and dropping entries, switching over. *)
(* TLC checks, for every interleaving of small programs, that it obeys the *)
(* rules of Slots, that every call is atomic, and that every call returns. *)
(* The compiled code is held to the same rules and to the same meaning of  *)
(* the calls by the recorded traces (SlotTrace, HistTrace, DoneTrace).     *)
(* Durability is the subject of CliffCrash.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Threads, Keys,
          Cases,      \* what to run: prog[p] is the sequence of calls <<op, key, new, old>> of thread p,
                      \* setup the sequence of entries <<key, value>> of the first table (GONE: removed)
          Lens,       \* lengths of the tables
          Home(_, _), \* first slot of a key in a table
          Chunk,      \* slots handed over at a time
          Crowded(_, _, _)   \* a new key moves to a larger table: probed, slots used, length

FREE == 0
SHUT == -1
NONE == 0
GONE == 1
\* Expected values: ANY present one; whatever there is; COPY: an entry is being copied.
WHATEVER == -1
ANY  == -2
COPY == -3
Empty == [v |-> NONE, m |-> FALSE]
At(t, i) == ((i - 1) % Lens[t]) + 1
Present(v) == v \notin {NONE, GONE}

\* The first table after Setup: every key in its first free slot.
RECURSIVE Place(_, _, _)
Place(ks, x, y) == IF ks[At(1, y)] = FREE THEN [ks EXCEPT ![At(1, y)] = x] ELSE Place(ks, x, y + 1)
RECURSIVE Placed(_, _)
Placed(ks, s) == IF s = <<>> THEN ks ELSE Placed(Place(ks, Head(s)[1], Home(Head(s)[1], Lens[1])), Tail(s))
Key1(s) == Placed([i \in 1..Lens[1] |-> FREE], s)
First(s, k) == IF \E j \in 1..Len(s) : s[j][1] = k THEN s[CHOOSE j \in 1..Len(s) : s[j][1] = k][2] ELSE GONE
Val1(s) == [i \in 1..Lens[1] |-> IF Key1(s)[i] = FREE THEN Empty ELSE [v |-> First(s, Key1(s)[i]), m |-> FALSE]]

(* --algorithm CliffMap {
variables
  case \in Cases,
  size = <<Lens[1]>>, key = <<Key1(case.setup)>>, val = <<Val1(case.setup)>>, cur = 1,
  used = [u \in 1..Len(Lens) |-> IF u = 1 THEN Len(case.setup) ELSE 0],
  done = [u \in 1..Len(Lens) |-> 0],      \* slots reported as handed over
  next = [u \in 1..Len(Lens) |-> 0],      \* next chunk
  count = Cardinality({x \in Keys : First(case.setup, x) # GONE}),
  \* The abstract map: every key with all the values it had.
  log = [x \in Keys |-> <<First(case.setup, x)>>],
  ret = [x \in Threads |-> NONE], yes = [x \in Threads |-> FALSE];

define {
  Newest == Len(size)
  Now(x) == log[x][Len(log[x])]
  Settled(w) == w.m /\ w.v \in {NONE, GONE}
}

\* The next table is linked, by whoever is first.
macro resize(t) {
  if (Newest = t) {
    assert t < Len(Lens);
    size := Append(size, Lens[t + 1]);
    key := Append(key, [x \in 1..Lens[t + 1] |-> FREE]);
    val := Append(val, [x \in 1..Lens[t + 1] |-> Empty]);
  }
}

\* putIfMatch: what is found (GONE if absent) is returned in ret.
procedure Put(pt, pk, pnew, pold)
variables pi = 0, pd = 0, pv = Empty, pkey = 0;
{
Start: pi := At(pt, Home(pk, Lens[pt])); pd := 0;
Probe: if (key[pt][pi] = FREE /\ pnew = GONE) { ret[self] := GONE; return }
       else { pkey := key[pt][pi]; pv := val[pt][pi]; if (pkey # FREE) goto Match };
Claim: if (key[pt][pi] = FREE) { key[pt][pi] := pk; goto Used }
       else pkey := key[pt][pi];
Match: if (pkey = pk) goto Found
       else {
         pd := pd + 1;
         if (pd >= Lens[pt] \/ pkey = SHUT) goto Grow
         else { pi := At(pt, pi + 1); goto Probe }
       };
Grow:  resize(pt);
       if (pold # COPY) call Help();
On:    pt := pt + 1; pi := At(pt, Home(pk, Lens[pt])); pd := 0; goto Probe;
Used:  used[pt] := used[pt] + 1;
Found: if (pv.v = pnew /\ ~pv.m) { ret[self] := pnew; return }
       else if (pv.m \/ (pv.v = NONE /\ Crowded(pd, used[pt], Lens[pt]))) {
Larger:  resize(pt);
         if (pold = COPY /\ pv.m /\ pv.v # NONE) return else goto Move
       };
Try:   if (pold # WHATEVER /\ pv.v # pold /\ ~(pold = COPY /\ pv.v = NONE) /\ (pold # ANY \/ ~Present(pv.v)) /\ ~(pv.v = NONE /\ pold = GONE)) {
         ret[self] := pv.v; return
       } else {
Store:   if (val[pt][pi] = pv) {
           val[pt][pi].v := pnew;
           if (pold # COPY) {
             assert Now(pk) = IF pv.v = NONE THEN GONE ELSE pv.v;   \* the call takes effect here, on what it returns
             log[pk] := Append(log[pk], pnew)
           }
         } else {
           pv := val[pt][pi];
           goto Lost
         };
Count:   if (pold # COPY) {
           count := count + (IF Present(pnew) THEN 1 ELSE 0) - (IF Present(pv.v) THEN 1 ELSE 0)
         };
         ret[self] := IF pv.v = NONE THEN GONE ELSE pv.v;
         return
       };
Lost:  if (~val[pt][pi].m) goto Try
       else if (pold = COPY /\ val[pt][pi].v # NONE) return;
Move:  call CopyCheck(pt, pi, IF pold # COPY THEN 1 ELSE 0);
Again: pt := pt + 1; pi := At(pt, Home(pk, Lens[pt])); pd := 0; goto Probe
}

procedure Get(gt, gk)
variables gi = 0, gprobed = 0;
{
GStart: gi := At(gt, Home(gk, Lens[gt])); gprobed := 0;
GProbe: if (key[gt][gi] = FREE) { ret[self] := GONE; return }
        else if (key[gt][gi] = gk) {
          if (~val[gt][gi].m) { ret[self] := IF val[gt][gi].v = NONE THEN GONE ELSE val[gt][gi].v; return }
          else goto GMove
        } else {
          gprobed := gprobed + 1;
          if (gprobed < Lens[gt] /\ key[gt][gi] # SHUT) { gi := At(gt, gi + 1); goto GProbe }
        };
GLast:  if (Newest = gt) { ret[self] := GONE; return } else call Help();
GOn:    gt := gt + 1; gi := At(gt, Home(gk, Lens[gt])); gprobed := 0; goto GProbe;
GMove:  call CopyCheck(gt, gi, 1);
GAgain: gt := gt + 1; gi := At(gt, Home(gk, Lens[gt])); gprobed := 0; goto GProbe
}

\* copySlot: yes tells whether this call handed the slot over.
procedure Copy(ct, ci)
variables W = Empty;
{
CKey:  if (key[ct][ci] = FREE) key[ct][ci] := SHUT;
CRead: W := val[ct][ci];
CMark: if (W.m) skip
       else if (val[ct][ci] # W) { W := val[ct][ci]; goto CMark }
       else {
         val[ct][ci].m := TRUE;
         if (~Present(W.v)) { yes[self] := TRUE; return }
       };
CSeen: if (Settled(val[ct][ci])) { yes[self] := FALSE; return }
       else {
         W := val[ct][ci];
         call Put(ct + 1, key[ct][ci], W.v, COPY)
       };
CDrop: if (val[ct][ci] = W) { val[ct][ci].v := GONE; yes[self] := TRUE }
       else yes[self] := FALSE;
       return
}

procedure CopyCheck(kt, ki, help)
{
KCopy: call Copy(kt, ki);
KDone: if (yes[self]) call Check(kt, 1);
KHelp: if (help = 1) call Help();
KEnd:  return
}

\* copyCheckAndPromote
procedure Check(dt, work)
variables seen = 0;
{
DRead: seen := done[dt] + work;
DAdd:  if (work > 0) { assert done[dt] + work <= Lens[dt]; done[dt] := done[dt] + work };
DSwap: if (seen = Lens[dt] /\ cur = dt) cur := dt + 1;
       return
}

\* helpCopy: always the current table, until it is handed over completely.
procedure Help()
variables htop = 0, hat = 0, panic = -1, hn = 0, work1 = 0;
{
HTop:  htop := cur;
HNew:  if (Newest = htop) return;
HLoop: if (done[htop] < Lens[htop] /\ (panic = -1 \/ hat < panic + Lens[htop])) {
         if (panic = -1) {
HClaim:    hat := next[htop];
           if (hat < 2 * Lens[htop]) next[htop] := hat + Chunk
           else panic := hat
         };
HWork:   hn := 0; work1 := 0;
HSlot:   while (hn < Chunk) {
           call Copy(htop, ((hat + hn) % Lens[htop]) + 1);
HCopied:   if (yes[self]) work1 := work1 + 1;
           hn := hn + 1
         };
         if (work1 > 0) call Check(htop, work1);
HNext:   hat := hat + Chunk;
         goto HLoop
       };
HEnd:  call Check(htop, 0);
HRet:  return
}

fair process (client \in Threads)
variables nth = 1, start = 1, op = <<>>;
{
Call: while (nth <= Len(case.prog[self])) {
        op := case.prog[self][nth];
        start := Len(log[op[2]]);
        ret[self] := NONE;
Read:   if (op[1] = "get") call Get(cur, op[2])
        else call Put(cur, op[2], op[3], op[4]);
Back:   \* A call that stored nothing saw a value the key had meanwhile.
        if (op[1] = "get" \/ ~(op[4] = WHATEVER \/ op[4] = ret[self] \/ (op[4] = ANY /\ Present(ret[self]))))
          assert \E j \in start..Len(log[op[2]]) : log[op[2]][j] = ret[self] \/ (ret[self] = NONE /\ log[op[2]][j] = GONE);
        nth := nth + 1
      }
}
} *)
=============================================================================
