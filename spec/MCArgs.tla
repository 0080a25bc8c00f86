------------------------------- MODULE MCArgs -------------------------------
(* every signature, every arrangement of at most MaxSlots slots in the outer and inner signal *)
EXTENDS Args, TLC
CONSTANTS MaxOps, NSigs
VARIABLES path, n
View == <<vars, n>>
S(k, v) == " " \o k \o "=" \o ToString(v)
MCInit == Init /\ path = "" /\ n = 0
A(k) == [j \in 1..Len(k) |-> 10 * j + 1]
MCNext ==
  \/ \E k \in 0..(NSigs - 1) : EvOp([o |-> "begin", cf |-> k]) /\ path' = "op begin" \o S("cf", k) /\ UNCHANGED n
  \/ /\ n < MaxOps /\ op.ph = "none" /\ kinds # <<"none">>
     /\ n' = n + 1
     /\ \/ \E to \in {0, 1}, kd \in {"p", "x"}, w \in {1}, x \in {0, 3}, fr \in {0} :
             /\ EvOp([o |-> "connect", to |-> to, kind |-> kd, sid |-> n + 1, w |-> w, r |-> n + 5, x |-> x, fr |-> fr])
             /\ path' = path \o ";op connect" \o S("to", to) \o " kind=" \o kd \o S("sid", n + 1) \o S("w", w) \o S("r", n + 5) \o S("x", x) \o S("fr", fr) \o S("st", n % 3)
        \/ \E fr \in {0, 1} : EvOp([o |-> "chain", fr |-> fr]) /\ path' = path \o ";op chain" \o S("fr", fr)
        \/ EvOp([o |-> "emit", a |-> A(kinds)]) /\ path' = path \o ";op emit" \o S("cst", n % 2) \o S("rv", n % 2) \o S("b", 10)
        \/ EvOp([o |-> "direct", sid |-> 90, w |-> 2, r |-> 77, x |-> 0, a |-> A(kinds)]) /\ path' = path \o ";op direct sid=90 w=2 r=77 x=0 b=10" \o S("cst", n % 2) \o S("st", n % 3)
  \/ /\ \/ op.ph = "run" /\ op.q # <<>> /\ Head(op.q).lv # 2 /\ EvCall([id |-> Head(op.q).id, a |-> Seen, ok |-> 1])
        \/ InnerEnd
        \/ op.ph = "ret" /\ EvRet([r |-> op.r, x |-> op.x, a |-> op.var])
        \/ op.ph = "run" /\ op.q = <<>> /\ EvRet([r |-> op.acc, x |-> 0, a |-> op.var])
     /\ UNCHANGED <<path, n>>
Spec == MCInit /\ [][MCNext]_<<vars, path, n>>
Script == IF op.ph \in {"run", "ret"} /\ op'.ph = "none" /\ n > 0 THEN PrintT("SCRIPT " \o path') ELSE TRUE
\* by-value arguments of the caller are never changed; referenced ones only grow
ByValue == op.ph = "run" => \A j \in 1..Len(kinds) : IF kinds[j] \in {"V", "C"} THEN op.var[j] = op.a[j] ELSE op.var[j] >= op.a[j]
=============================================================================
