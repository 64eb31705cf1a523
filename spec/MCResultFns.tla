--------------------------- MODULE MCResultFns ---------------------------
EXTENDS ResultFns, Json
CONSTANTS MaxOps, Emit
Mk(t, id, key, to, fs, names, field, map, from) ==
  [t |-> t, id |-> id, key |-> key, to |-> to, fs |-> fs, names |-> names, field |-> field, map |-> map, from |-> from]
PlainOps == {Mk("plain", id, k, to, <<>>, <<>>, "", <<>>, "") : id \in {5, 6}, k \in {"a", "r1"}, to \in {"results", "aux"}}
ApplyOps == {Mk("apply", 0, "", "", fs, ns, f, m, "") :
               fs \in {<<1>>, <<2, 3>>}, ns \in {<<>>, <<"r1">>, <<"r2", "a">>}, f \in {"results", "aux", "other"},
               m \in {<<<<"p", "b">>>>, <<<<"p", "c">>, <<"q", "b">>>>, <<<<"s", "r1">>>>, <<<<"p", "fn1">>, <<"s", "c">>>>, <<>>}}
(* one function only may be applied to the whole auxiliary dictionary or to entries it writes itself *)
Apart(o) == o.t # "apply" \/ Len(o.fs) = 1 \/ (o.map # <<>> /\ \A i \in 1..Len(o.map) : \A k \in 1..Len(o.fs) : NamesFit(o) => o.map[i][2] # EntryName(o, k))
TransferOps == {Mk("transfer", 0, "", "", <<>>, <<>>, f, m, fr) : f \in {"results", "aux"}, fr \in {"results", "aux"},
               m \in {<<<<"b", "b">>>>, <<<<"r2", "c">>>>, <<<<"a", "r1">>, <<"q", "b">>>>, <<<<"fn1", "fn1">>>>}}
          \cup {Mk("transfer", 0, "", "", <<>>, <<>>, "other", <<<<"b", "b">>>>, "aux"), Mk("transfer", 0, "", "", <<>>, <<>>, "aux", <<<<"b", "b">>>>, "other")}
Ops == {o \in PlainOps \cup ApplyOps \cup TransferOps : Apart(o)}
Start == /\ pc = 1 /\ sub = 0 /\ calls = <<>> /\ err = ""
         /\ res = [k \in {"a", "b"} |-> IF k = "a" THEN 3 ELSE 4] /\ aux = [k \in {"b", "c"} |-> IF k = "b" THEN 50 ELSE 60]
Init == Start /\ ops \in UNION {[1..n -> Ops] : n \in 0..MaxOps} /\ local \in {{}, {<<"extra", 9>>}}
Spec == Init /\ [][Step]_rvars
(* generator: operations are added one by one to a list that has run without an error so far *)
GenInit == Start /\ ops = <<>> /\ local = {}
GenNext == \/ /\ ~Running /\ err = "" /\ Len(ops) < MaxOps
              /\ \E o \in Ops : ops' = Append(ops, o)
              /\ UNCHANGED <<pc, sub, res, aux, local, calls, err>>
           \/ Step
EmitOps == Emit /\ ops # <<>> /\ ~Running => PrintT("GEN|" \o ToJson([ops |-> ops, ok |-> err = ""]))
===========================================================================
