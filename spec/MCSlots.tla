------------------------------ MODULE MCSlots ------------------------------
(* all sequences of at most MaxOps operations on slot objects, and the scripts that make the real code follow them *)
EXTENDS Slots
CONSTANTS MaxOps, MaxObj, Ops, OKinds, Convert, Hooks
VARIABLES path, n, born, expd   \* born: slots by what they must hold; expd: slots seen expired
mcvars == <<vars, path, n, born, expd>>
View == <<vars, n, born, expd>>
S(k, v) == " " \o k \o "=" \o ToString(v)
First(A) == IF A = {} THEN {} ELSE {CHOOSE x \in A : \A y \in A : x <= y}
MCInit == Init /\ path = "" /\ n = 0 /\ born = {} /\ expd = {}
Ex == {k \in 1..NSL : slt[k].fn # 0}
Fr == First(1..NSL \ Ex)
Own == {o \in DOMAIN obj : obj[o].own}
\* objects given up while the slot is looking at what it tracks, and when
Fds == {<<0, 0>>} \cup {<<x, a>> : x \in {x \in Own : obj[x].kind \in {"b", "s", "f"}}, a \in 0..(Hooks - 1)}
Choices(o) ==
  CASE o = "onew" -> IF Len(obj) >= MaxObj THEN {} ELSE {[o |-> o, ob |-> Len(obj) + 1, kind |-> k] : k \in OKinds}
    [] o = "odrop" -> {[o |-> o, ob |-> x] : x \in Own}
    [] o = "snew" -> {[o |-> o, k |-> k, f |-> 1, ob |-> 0, kind |-> "f"] : k \in Fr}
                     \cup {[o |-> o, k |-> k, f |-> 1, ob |-> x, kind |-> obj[x].kind] : k \in Fr, x \in {x \in Own : obj[x].kind \in {"t", "g"}}}
    [] o = "scopy" -> {[o |-> o, k |-> k, j |-> j, cv |-> cv] : k \in Fr, j \in Ex, cv \in Convert}
    [] o = "sassign" -> {[o |-> o, k |-> k, j |-> j] : k \in Ex, j \in Ex}
    [] o = "sdel" -> {[o |-> o, k |-> k] : k \in Ex}
    [] o = "track" -> {[o |-> o, k |-> k, ob |-> x, via |-> n % 2] : k \in Ex, x \in {x \in DOMAIN obj : (obj[x].own \/ obj[x].kind \in {"b", "s", "f"}) /\ obj[x].kind # "t"}}
    [] o = "tracks" -> {[o |-> o, k |-> k, j |-> j] : k \in Ex, j \in Ex}
    [] o = "ntrk" -> {[o |-> o, k |-> k] : k \in Ex}
    [] o = "expired" -> {[o |-> o, k |-> k, fd |-> z[1], fa |-> z[2]] : k \in Ex, z \in Fds}
    [] o = "lock" -> {[o |-> o, k |-> k, m |-> m, fd |-> z[1], fa |-> z[2]] : k \in Ex, m \in First({m \in 1..NL : lck[m] = {0}}), z \in Fds}
    [] o = "call" /\ Hooks > 0 -> {[o |-> o, k |-> k, v |-> n, dr |-> 0, x |-> 0, cst |-> n % 2, fd |-> z[1], fa |-> z[2]] : k \in Ex, z \in Fds}
    [] o = "unlock" -> {[o |-> o, m |-> m] : m \in {m \in 1..NL : lck[m] # {0}}}
    [] o \in {"call", "become"} -> {[o |-> o, k |-> k, v |-> n, dr |-> d, x |-> x, cst |-> n % 2] : k \in Ex, d \in {0} \cup Own, x \in {0, 3}}
RECURSIVE Txt(_, _)
Txt(e, ks) == IF ks = <<>> THEN "" ELSE (IF Head(ks) \in DOMAIN e THEN " " \o Head(ks) \o "=" \o ToString(e[Head(ks)]) ELSE "") \o Txt(e, Tail(ks))
Tok(e) == "op " \o e.o \o Txt(e, <<"k", "j", "f", "ob", "m", "v", "dr", "x", "cst", "cv", "via", "fd", "fa">>) \o (IF "kind" \in DOMAIN e THEN " kind=" \o e.kind ELSE "")
MCNext ==
  \/ n < MaxOps /\ \E o \in Ops : \E e \in Choices(o) :
       /\ (IF o = "tracks" THEN e.k # e.j ELSE TRUE)
       /\ EvOp(e) /\ n' = n + 1 /\ path' = path \o (IF path = "" THEN "" ELSE ";") \o Tok(e)
       /\ expd' = CASE o = "expired" /\ Exp(slt[e.k]) -> expd \cup {e.k} [] o \in {"snew", "scopy", "sassign", "sdel"} -> expd \ {e.k} [] OTHER -> expd
       /\ UNCHANGED born
  \/ /\ \/ op.ph = "call" /\ EvCall([fn |-> op.fn, n |-> op.n, v |-> op.v])
        \/ op.ph = "in" /\ op.dr # 0 /\ EvDrop([ob |-> op.dr])
        \/ op.ph = "in" /\ EvCRet([x |-> op.x])
        \/ Release \/ Look
        \/ op.ph # "none" /\ op.fd # 0 /\ EvFDrop([ob |-> op.fd])
        \/ \E o \in DOMAIN obj : EvODtor([ob |-> o])
        \/ op.ph = "ret" /\ EvRet([r |-> op.r, x |-> op.x])
     /\ UNCHANGED <<path, n, born, expd>>
Spec == MCInit /\ [][MCNext]_mcvars
Script == IF op.ph # "none" /\ op'.ph = "none" THEN PrintT("SCRIPT " \o path') ELSE TRUE
\* no function runs while something its slot tracks has expired (objects bound as trackable apart); expiry is final
Safe == op.ph \in {"call", "in", "out"} => \A o \in op.hold : obj[o].st = "live"
ExpiredForEver == \A k \in expd : slt[k].fn # 0 => Exp(slt[k])
\* slots own nothing
NoOwner == op.ph = "none" => \A o \in DOMAIN obj : (~obj[o].own /\ \A m \in 1..NL : o \notin lck[m]) => ~Alive(o)
=============================================================================
