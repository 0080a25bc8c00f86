--------------------------- MODULE MCDeconstruct ---------------------------
(* all histories of at most MaxOps operations with few objects, and the scripts that make the real code follow them *)
EXTENDS Deconstruct, TLC
CONSTANTS MaxOps, MaxObj, Kinds, Ops, Xs, Rich
VARIABLES path, n, log     \* log: what has happened to each object
mcvars == <<vars, path, n, log>>
View == <<vars, n, log>>
First(A) == IF A = {} THEN {} ELSE {CHOOSE x \in A : \A y \in A : x <= y}
FreeI == First({v \in 1..NI : inv[v].ob = 0})
FreeP == First({p \in 1..NP : ptr[p] = 0})
Keep(k) == IF Rich /\ k \in {"adl", "esft", "const", "esftp"} THEN {0, NP} ELSE {0}
PQ == IF Rich THEN {0, 1, 2} ELSE {0}
Args(na) == [j \in 1..na |-> j + 1]
PArgs(via, na) == IF via = 1 THEN [j \in 1..na |-> j + 2] ELSE <<>>
Arity(k) == IF k = "fwd" THEN 3 ELSE (n * 3 + 1) % 10
PArity(k) == IF k = "fwd" THEN 3 * (n % 2) ELSE IF k \in {"old", "oldpo", "oldpr"} THEN 0 ELSE (n * 5 + 1) % 10
KD(p) == Kinds \intersect (IF p THEN {"plain", "post", "pre", "both", "second", "base", "cboth", "esftp"} ELSE {"adl", "priv", "esft", "const", "nopre", "algn", "old", "oldpo", "oldpr", "fwd"})
Room == Len(obj) < MaxObj
Choices(o) ==
  CASE o = "dnew" -> IF ~Room THEN {} ELSE {[o |-> o, v |-> v, kind |-> k, na |-> Arity(k), b |-> 1, a |-> Args(Arity(k)), x |-> x, pq |-> pq, del |-> 0, ob |-> Len(obj) + 1, flt |-> f, fa |-> 0] :
                       v \in FreeI, k \in KD(FALSE), x \in Xs, pq \in PQ, f \in {0}}
    [] o = "dmake" -> IF ~Room THEN {} ELSE {[o |-> o, p |-> p, kind |-> k, na |-> Arity(k), b |-> 1, a |-> Args(Arity(k)), x |-> x, via |-> n % 2, npa |-> PArity(k), pa |-> PArgs(n % 2, PArity(k)),
                        px |-> px, keep |-> keep, pq |-> pq, del |-> 0, ob |-> Len(obj) + 1, flt |-> 0, fa |-> 0] :
                       p \in FreeP, k \in KD(FALSE), x \in Xs, px \in Xs, keep \in IF Rich THEN {0, NP} ELSE {0}, pq \in PQ}
    [] o = "dpost" -> {[o |-> o, v |-> v, p |-> p, via |-> n % 2, npa |-> PArity(obj[inv[v].ob].k), b |-> 1, pa |-> PArgs(n % 2, PArity(obj[inv[v].ob].k)), px |-> px, keep |-> keep] :
                       v \in {v \in 1..NI : inv[v].ob # 0}, p \in FreeP, px \in Xs, keep \in IF Rich THEN {0, NP} ELSE {0}}
    [] o = "pnew" -> IF ~Room THEN {} ELSE {[o |-> o, p |-> p, kind |-> k, del |-> d, px |-> px, keep |-> keep, pq |-> pq, via |-> 0, pa |-> <<>>, b |-> 1, ob |-> Len(obj) + 1, flt |-> f, fa |-> 0] :
                       p \in FreeP, k \in KD(TRUE), d \in {0, 1}, px \in Xs, keep \in IF Rich THEN {0, NP} ELSE {0}, pq \in PQ, f \in {0}}
    [] o = "pnull" -> {[o |-> o, kind |-> k, del |-> d, flt |-> 0] : k \in KD(TRUE), d \in {0, 1}}
    [] o = "idrop" -> {[o |-> o, v |-> v] : v \in {v \in 1..NI : inv[v].ob # 0}}
    [] o = "icopy" -> {[o |-> o, v |-> v, w |-> w] : v \in {v \in 1..NI : inv[v].done}, w \in FreeI}
    [] o = "pdrop" -> {[o |-> o, p |-> p] : p \in {p \in 1..NP : ptr[p] # 0}}
    [] o = "pcopy" -> {[o |-> o, p |-> p, q |-> q] : p \in {p \in 1..NP : ptr[p] # 0}, q \in FreeP}
    [] o = "sft" -> {[o |-> o, p |-> p] : p \in {p \in 1..NP : ptr[p] # 0 /\ obj[ptr[p]].k \in {"esft", "esftp"}}}
KeepOk(e) == IF "keep" \in DOMAIN e /\ e.keep # 0 THEN e.keep \in Keep(IF e.o = "dpost" THEN obj[inv[e.v].ob].k ELSE e.kind) ELSE TRUE
RECURSIVE Txt(_, _)
Txt(e, ks) == IF ks = <<>> THEN "" ELSE (IF Head(ks) \in DOMAIN e THEN " " \o Head(ks) \o "=" \o ToString(e[Head(ks)]) ELSE "") \o Txt(e, Tail(ks))
Tok(e) == "op " \o e.o \o Txt(e, <<"v", "w", "p", "q", "na", "b", "x", "via", "npa", "px", "keep", "pq", "del", "ob", "flt", "fa">>) \o (IF "kind" \in DOMAIN e THEN " kind=" \o e.kind ELSE "")
MCInit == Init /\ path = "" /\ n = 0 /\ log = <<>>
Grow(l, ob) == IF ob > Len(l) THEN Append(l, <<>>) ELSE l
MCNext ==
  \/ n < MaxOps /\ \E o \in Ops : \E e \in Choices(o) :
       KeepOk(e) /\ EvOp(e) /\ n' = n + 1 /\ path' = path \o (IF path = "" THEN "" ELSE ";") \o Tok(e)
       /\ log' = IF o \in {"dnew", "dmake", "pnew"} THEN Append(log, <<>>) ELSE log
  \/ /\ op.ph = "run"
     /\ IF op.due # <<>> THEN EvCall([e |-> Head(op.due).e, ob |-> Head(op.due).ob, a |-> Head(op.due).a, ok |-> 1]) /\ log' = [log EXCEPT ![Head(op.due).ob] = Append(@, Head(op.due).e)]
        ELSE EvRet([r |-> op.r, x |-> op.x]) /\ UNCHANGED log
     /\ UNCHANGED <<path, n>>
Spec == MCInit /\ [][MCNext]_mcvars
Script == IF op.ph # "none" /\ op'.ph = "none" THEN PrintT("SCRIPT " \o path') ELSE TRUE
\* ---- what the listed properties say of each object's life
Count(l, x) == Cardinality({i \in DOMAIN l : l[i] = x})
Life == \A o \in DOMAIN log : LET l == log[o] IN
  /\ Count(l, "ctor") <= 1 /\ Count(l, "dtor") <= 1 /\ Count(l, "pre") <= 1 /\ Count(l, "udel") <= 1
  /\ l # <<>> => l[1] = "ctor"
  /\ \A i \in DOMAIN l : l[i] = "dtor" => (i = Len(l) /\ (HasPre(obj[o].k) => l[i - 1] \in {"pre", "udel"}))
  /\ (Count(l, "udel") = 1 => Count(l, "pre") = 0)
\* postconstructed exactly once when it does not throw, and before anybody has a pointer (but the one it gives away itself)
PostOnce == op.ph = "none" => \A o \in DOMAIN log : (\E i \in 1..NI : inv[i].ob = o /\ inv[i].done) /\ HasPost(obj[o].k) => Count(log[o], "post") >= 1
\* an object lives exactly as long as it has owners
Alive == op.ph = "none" => \A o \in DOMAIN log : (log[o] # <<>>) => ((Refs(St, o) > 0) = (Count(log[o], "dtor") = 0)) \/ Len(log[o]) = 1
=============================================================================
