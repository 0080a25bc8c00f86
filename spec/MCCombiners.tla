---------------------------- MODULE MCCombiners ----------------------------
(* every configuration, every sequence of at most MaxSlots slots and two emissions *)
EXTENDS Combiners, TLC, FiniteSets
CONSTANTS MaxSlots, MaxEmits, Cfs, MaxDo   \* configurations; actions of a combiner that does what it is told
VARIABLES path, n, calls
mcvars == <<vars, path, n, calls>>
View == <<cb, slots, run, n, calls>>
S(k, v) == " " \o k \o "=" \o ToString(v)
MCInit == Init /\ path = "" /\ n = [c |-> 0, e |-> 0, d |-> 0] /\ calls = <<>>
Code(a) == CASE a = "take" -> "1" [] a = "move" -> "3" [] a = "step" -> "4" [] a = "let" -> "5" [] a = "stop" -> "6" [] a = "throw" -> "7" [] a = "post" -> "9"
Plans == {<<"v", 5>>, <<"v", 6>>, <<"x", 99>>, <<"x", 61>>, <<"x", 60>>, <<"x", 3>>}
MCNext ==
  \/ \E k \in Cfs : Begin([cf |-> k]) /\ path' = "op begin" \o S("cf", k) /\ UNCHANGED <<n, calls>>
  \/ /\ n.e = 0 /\ n.c < MaxSlots
     /\ \E p \in Plans, f \in {0} : /\ Connect([kind |-> p[1], v |-> p[2], fr |-> f, sid |-> n.c + 1])
                               /\ path' = path \o ";op connect kind=" \o p[1] \o S("v", p[2]) \o S("fr", f) \o S("sid", n.c + 1)
     /\ n' = [n EXCEPT !.c = @ + 1] /\ UNCHANGED calls
  \/ n.e < MaxEmits /\ Emit(0) /\ path' = path \o ";op emit" \o (IF cb.opt = "told" THEN " trk=" ELSE "") /\ n' = [n EXCEPT !.e = @ + 1, !.d = 0] /\ calls' = <<>>
  \/ \E a \in {"take", "move", "step", "let", "stop", "throw", "post"} :
       /\ run.ph = "comb" /\ (IF n.d >= MaxDo THEN a = "stop" ELSE TRUE)
       /\ a = "move" => cb.mv
       /\ a = "post" => cb.cp
       /\ Do([a |-> a, end |-> B2I(AtEnd)])
       /\ path' = path \o (IF n.d = 0 THEN "" ELSE ".") \o Code(a) /\ n' = [n EXCEPT !.d = @ + 1] /\ UNCHANGED calls
  \/ run.ph = "der" /\ CallTold([id |-> run.snap[run.pos].id]) /\ calls' = Append(calls, run.snap[run.pos]) /\ UNCHANGED <<path, n>>
  \/ run.ph = "res" /\ Got([v |-> run.val[1]]) /\ UNCHANGED <<path, n, calls>>
  \/ run.ph = "exc" /\ GotX([v |-> run.x]) /\ UNCHANGED <<path, n, calls>>
  \/ run.ph = "slots" /\ run.pos <= Len(slots) /\ Call([id |-> slots[run.pos].id]) /\ calls' = Append(calls, slots[run.pos]) /\ UNCHANGED <<path, n>>
  \/ /\ run.ph # "none" /\ LET r == IF run.ph = "slots" THEN Result(run.last) ELSE run IN Ret([k |-> r.k, v |-> r.v])
     /\ UNCHANGED <<path, n, calls>>
Spec == MCInit /\ [][MCNext]_mcvars
Script == IF run.ph # "none" /\ run'.ph = "none" /\ n.e > 0 THEN PrintT("SCRIPT " \o path') ELSE TRUE
\* the result is that of the last slot that completed; an exception is that of the last slot called
Vals == SelectSeq(calls, LAMBDA s : s.k = "v")
Told == cb.opt = "told"
LastRight == Told \/
  (run.ph # "none" /\ run.ph = "slots" /\ run.pos > Len(slots)) =>
     /\ (Result(run.last).k = "val" => Vals # <<>> /\ Result(run.last).v = Vals[Len(Vals)].v)
     /\ (Result(run.last).k \in {"none", "exc"} => Vals = <<>> \/ cb.void)
     /\ \A j \in DOMAIN calls : calls[j].k = "x" => calls[j].v \in EXPIRED
ExcRight == Told \/ (run.ph # "none" /\ run.ph = "ret" /\ run.k = "exc" /\ n.e > 0) => calls # <<>> /\ calls[Len(calls)].v = run.v /\ calls[Len(calls)].k = "x"
Once == Told \/ \A i, j \in DOMAIN calls : i # j => calls[i].id # calls[j].id
\* each slot is called at most once before the combiner steps on, unless it throws; in order; never after the end
OnceTold == Told => \A i, j \in DOMAIN calls : (i < j /\ calls[i].k = "v") => calls[i].id # calls[j].id
OrderTold == Told => \A i, j \in DOMAIN calls : i < j => calls[i].id <= calls[j].id
ResultTold == (Told /\ run.ph = "res") => /\ calls # <<>> /\ calls[Len(calls)].id = run.snap[run.pos].id /\ calls[Len(calls)].k = "v"
                                         /\ run.val[1] \in {calls[Len(calls)].v, -1} \cup (IF cb.void THEN {0} ELSE {})
=============================================================================
