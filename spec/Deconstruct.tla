---------------------------- MODULE Deconstruct ----------------------------
(***************************************************************************)
(* deconstruct<T>() and deconstruct_ptr(): when constructors,              *)
(* postconstructors, predestructors, deleters and destructors run, for     *)
(* objects owned by any number of invokers and shared pointers.            *)
(* The environment chooses operations, throwing constructors and           *)
(* postconstructors, allocation failures, postconstructors that keep a     *)
(* pointer to the object, and predestructors that drop another pointer.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NI, NP    \* how many variables for invokers and pointers
VARIABLES
  inv,   \* invokers: [ob, done]; ob = 0: none
  ptr,   \* shared pointers: object or 0
  obj,   \* objects created so far: [k, del, pq]
  op     \* operation in progress: what must happen before it returns, and how it returns
vars == <<inv, ptr, obj, op>>

\* kinds of classes; the last eight are used with deconstruct_ptr
HasPost(k) == k \in {"adl", "priv", "old", "esft", "const", "nopre", "algn", "oldpo", "fwd"} \union {"post", "both", "second", "base", "cboth", "esftp"}
HasPre(k)  == k \in {"adl", "priv", "old", "esft", "const", "algn", "oldpr", "fwd"} \union {"pre", "both", "second", "base", "cboth", "esftp"}
Idle == [ph |-> "none"]
None == [ob |-> 0, done |-> FALSE]
Init == inv = [i \in 1..NI |-> None] /\ ptr = [i \in 1..NP |-> 0] /\ obj = <<>> /\ op = Idle

\* ---- releasing
Refs(st, ob) == Cardinality({i \in 1..NI : st.inv[i].ob = ob}) + Cardinality({i \in 1..NP : st.ptr[i] = ob})
Ev(e, ob) == [e |-> e, ob |-> ob, a |-> <<>>]
RECURSIVE Drop(_, _)
Drop(st, ob) ==     \* the last owner, if it was the last, has gone
  IF ob = 0 \/ Refs(st, ob) > 0 THEN st
  ELSE LET d == st.obj[ob]
           s1 == IF d.del = 1 THEN [st EXCEPT !.ev = Append(@, Ev("udel", ob))]
                 ELSE IF HasPre(d.k) THEN [st EXCEPT !.ev = Append(@, Ev("pre", ob))] ELSE st
           runs == d.del = 0 /\ HasPre(d.k) /\ d.pq # 0
           s2 == IF runs THEN Drop([s1 EXCEPT !.ptr[d.pq] = 0], s1.ptr[d.pq]) ELSE s1
       IN [s2 EXCEPT !.ev = Append(@, Ev("dtor", ob))]
St == [inv |-> inv, ptr |-> ptr, obj |-> obj, ev |-> <<>>]
Finish(st, r, x) == inv' = st.inv /\ ptr' = st.ptr /\ obj' = st.obj /\ op' = [ph |-> "run", due |-> st.ev, r |-> r, x |-> x]
Log(st, e) == [st EXCEPT !.ev = Append(@, e)]
New(st, e) == [st EXCEPT !.obj = Append(@, [k |-> e.kind, del |-> e.del, pq |-> e.pq])]
\* the postconstructor keeps a pointer to the object, and throws or not
Post(st, e, ob) ==
  LET s1 == Log(st, [e |-> "post", ob |-> ob, a |-> e.pa]) IN IF e.keep = 0 THEN s1 ELSE [s1 EXCEPT !.ptr[e.keep] = ob]
Free(p) == p \in 1..NP /\ ptr[p] = 0
PlanOk(e) == e.keep = 0 \/ (Free(e.keep) /\ e.keep # e.p)

\* ---- operations
DNew(e) ==          \* v = deconstruct<T>(args)
  /\ e.v \in 1..NI /\ inv[e.v].ob = 0 /\ e.ob = Len(obj) + 1
  /\ LET s1 == Log(New(St, e), [e |-> "ctor", ob |-> e.ob, a |-> e.a]) IN
     \/ IF e.x # 0 THEN Finish(s1, 0, e.x) ELSE Finish([s1 EXCEPT !.inv[e.v] = [ob |-> e.ob, done |-> ~HasPost(e.kind)]], e.ob, 0)
     \/ e.flt # 0 /\ Finish(New(St, e), 0, 99)
DPost(e) ==         \* p = v.postconstruct(args), or a conversion
  /\ e.v \in 1..NI /\ inv[e.v].ob # 0 /\ Free(e.p) /\ PlanOk(e)
  /\ LET ob == inv[e.v].ob IN
     IF inv[e.v].done THEN Finish([St EXCEPT !.ptr[e.p] = ob], ob, 0)
     ELSE LET s1 == Post(St, e, ob) IN
          IF e.px # 0 THEN Finish(s1, 0, e.px)
          ELSE Finish([s1 EXCEPT !.inv[e.v].done = TRUE, !.ptr[e.p] = ob], ob, 0)
DMake(e) ==         \* p = deconstruct<T>(args).postconstruct(args), or converted at once
  /\ Free(e.p) /\ PlanOk(e) /\ e.ob = Len(obj) + 1
  /\ LET s1 == Log(New(St, e), [e |-> "ctor", ob |-> e.ob, a |-> e.a])
         s2 == IF HasPost(e.kind) THEN Post(s1, e, e.ob) ELSE s1
     IN \/ IF e.x # 0 THEN Finish(s1, 0, e.x)
           ELSE IF HasPost(e.kind) /\ e.px # 0 THEN Finish(Drop(s2, e.ob), 0, e.px)
           ELSE Finish([s2 EXCEPT !.ptr[e.p] = e.ob], e.ob, 0)
        \/ e.flt # 0 /\ Finish(New(St, e), 0, 99)
PNew(e) ==          \* p = deconstruct_ptr(new T, deleter)
  /\ Free(e.p) /\ PlanOk(e) /\ e.ob = Len(obj) + 1
  /\ LET s1 == Log(New(St, e), [e |-> "ctor", ob |-> e.ob, a |-> <<>>])
         s2 == IF HasPost(e.kind) THEN Post(s1, e, e.ob) ELSE s1
     IN \/ IF HasPost(e.kind) /\ e.px # 0 THEN Finish(Drop(s2, e.ob), 0, e.px)
           ELSE Finish([s2 EXCEPT !.ptr[e.p] = e.ob], e.ob, 0)
        \/ e.flt # 0 /\ Finish(Drop(s1, e.ob), 0, 99)
PNull(e) == Finish(St, 0, 0) \/ (e.flt # 0 /\ Finish(St, 0, 99))
IDrop(e) == e.v \in 1..NI /\ inv[e.v].ob # 0 /\ Finish(Drop([St EXCEPT !.inv[e.v] = None], inv[e.v].ob), 0, 0)
ICopy(e) == e.v \in 1..NI /\ e.w \in 1..NI /\ inv[e.v].done /\ inv[e.w].ob = 0 /\ Finish([St EXCEPT !.inv[e.w] = inv[e.v]], 0, 0)
PDrop(e) == e.p \in 1..NP /\ ptr[e.p] # 0 /\ Finish(Drop([St EXCEPT !.ptr[e.p] = 0], ptr[e.p]), 0, 0)
PCopy(e) == e.p \in 1..NP /\ ptr[e.p] # 0 /\ Free(e.q) /\ Finish([St EXCEPT !.ptr[e.q] = ptr[e.p]], 0, 0)
Sft(e) == e.p \in 1..NP /\ ptr[e.p] # 0 /\ obj[ptr[e.p]].k \in {"esft", "esftp"} /\ Finish(St, ptr[e.p], 0)

EvOp(e) ==
  /\ op.ph = "none"
  /\ CASE e.o = "dnew" -> DNew(e) [] e.o = "dpost" -> DPost(e) [] e.o = "dmake" -> DMake(e) [] e.o = "pnew" -> PNew(e) [] e.o = "pnull" -> PNull(e)
       [] e.o = "idrop" -> IDrop(e) [] e.o = "icopy" -> ICopy(e) [] e.o = "pdrop" -> PDrop(e) [] e.o = "pcopy" -> PCopy(e) [] e.o = "sft" -> Sft(e)
EvCall(e) ==        \* user code runs, and finds its object in order
  /\ op.ph = "run" /\ op.due # <<>>
  /\ LET d == Head(op.due) IN e.e = d.e /\ e.ob = d.ob /\ e.a = d.a /\ e.ok = 1
  /\ op' = [op EXCEPT !.due = Tail(@)]
  /\ UNCHANGED <<inv, ptr, obj>>
EvRet(e) == op.ph = "run" /\ op.due = <<>> /\ e.r = op.r /\ e.x = op.x /\ op' = Idle /\ UNCHANGED <<inv, ptr, obj>>
EvEnd == op.ph = "none" /\ (\A i \in 1..NI : inv[i].ob = 0) /\ (\A i \in 1..NP : ptr[i] = 0) /\ UNCHANGED vars
=============================================================================
