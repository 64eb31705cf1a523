---------------------------- MODULE ResultFns ----------------------------
(* A list of result functions run over two dictionaries (results, aux).     *)
(* Operations                                                               *)
(*  [t |-> "plain", id, key, to]        a function storing one entry itself *)
(*  [t |-> "apply", fs, names, field, map]  functions applied to the mapped *)
(*        entries; map = <<<<argument, entry>>, ..>>, names = <<>>: own ones*)
(*  [t |-> "transfer", map, field, from]    map = <<<<to, entry>>, ..>>     *)
(* Values are small integers; every function computes Fold of what it got.  *)
EXTENDS LA
VARIABLES ops,   \* the list
          pc,    \* operation at work
          sub,   \* functions of it already called
          res, aux,
          local, \* extra keyword arguments every function receives, as pairs
          calls, \* calls made so far: <<operation, function>>
          err    \* "" or the error class
rvars == <<ops, pc, sub, res, aux, local, calls, err>>

Mod == 1009
Has(d, k) == k \in DOMAIN d
Set(d, k, v) == [x \in DOMAIN d \cup {k} |-> IF x = k THEN v ELSE d[x]]
(* order-independent digest of a set of pairs <<name, value>> under the weights w *)
Digest(S, w(_)) == LET RECURSIVE Sum(_)
                       Sum(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE y \in T : TRUE IN (w(x[1]) * x[2] + Sum(T \ {x})) % Mod
                   IN Sum(S)
Pairs(d) == {<<k, d[k]>> : k \in DOMAIN d}
Weight(k) == CASE k = "p" -> 2 [] k = "q" -> 3 [] k = "s" -> 5 [] k = "a" -> 7 [] k = "b" -> 11 [] k = "c" -> 13
               [] k = "extra" -> 17 [] k = "r1" -> 19 [] k = "r2" -> 23 [] OTHER -> 29
Name(id) == CASE id = 1 -> "fn1" [] id = 2 -> "fn2" [] id = 3 -> "fn3" [] OTHER -> "fn4"

Op == ops[pc]
Running == err = "" /\ pc <= Len(ops)
Rejected(class) == err' = class /\ UNCHANGED <<ops, pc, sub, res, aux, local, calls>>
(* ------------------------------------------------------------ plain *)
PlainValue(o) == (o.id + Digest(Pairs(res), Weight) + 2 * Digest(Pairs(aux), Weight) + Digest(local, Weight)) % Mod
Plain == /\ Running /\ Op.t = "plain"
         /\ IF Op.to = "results" THEN res' = Set(res, Op.key, PlainValue(Op)) /\ UNCHANGED aux
            ELSE aux' = Set(aux, Op.key, PlainValue(Op)) /\ UNCHANGED res
         /\ calls' = Append(calls, <<pc, Op.id>>) /\ pc' = pc + 1 /\ UNCHANGED <<ops, sub, local, err>>
(* ------------------------------------------------------------ apply *)
Lookup(k) == IF Has(res, k) THEN res[k] ELSE aux[k]
Known(o) == \A i \in 1..Len(o.map) : Has(res, o.map[i][2]) \/ Has(aux, o.map[i][2])
Mapped(o) == IF o.map = <<>> THEN Pairs(aux) ELSE {<<o.map[i][1], Lookup(o.map[i][2])>> : i \in 1..Len(o.map)}
NamesFit(o) == o.names = <<>> \/ Len(o.names) = Len(o.fs)
FieldOk(f) == f \in {"results", "aux"}
Args(o) == Mapped(o) \cup local
FnValue(id, args) == (10 * id + Digest(args, Weight)) % Mod
EntryName(o, k) == IF o.names = <<>> THEN Name(o.fs[k]) ELSE o.names[k]
ApplyOk(o) == Known(o) /\ NamesFit(o) /\ FieldOk(o.field)
ApplyCall == /\ Running /\ Op.t = "apply" /\ ApplyOk(Op) /\ sub < Len(Op.fs)
             /\ LET k == sub + 1  v == FnValue(Op.fs[k], Args(Op)) IN
                /\ IF Op.field = "results" THEN res' = Set(res, EntryName(Op, k), v) /\ UNCHANGED aux
                   ELSE aux' = Set(aux, EntryName(Op, k), v) /\ UNCHANGED res
                /\ calls' = Append(calls, <<pc, Op.fs[k]>>)
                /\ IF k = Len(Op.fs) THEN pc' = pc + 1 /\ sub' = 0 ELSE sub' = k /\ UNCHANGED pc
             /\ UNCHANGED <<ops, local, err>>
ApplyReject == Running /\ Op.t = "apply" /\ sub = 0 /\ ~ApplyOk(Op) /\ Rejected("ValueError")
(* --------------------------------------------------------- transfer *)
Source(o) == IF o.from = "results" THEN res ELSE aux
TransferOk(o) == FieldOk(o.field) /\ FieldOk(o.from) /\ \A i \in 1..Len(o.map) : Has(Source(o), o.map[i][2])
Copied(o, d) == LET s == Source(o) IN FoldLeft(LAMBDA acc, m : Set(acc, m[1], s[m[2]]), d, o.map)
Transfer == /\ Running /\ Op.t = "transfer" /\ TransferOk(Op)
            /\ IF Op.field = "results" THEN res' = Copied(Op, res) /\ UNCHANGED aux ELSE aux' = Copied(Op, aux) /\ UNCHANGED res
            /\ pc' = pc + 1 /\ UNCHANGED <<ops, sub, local, calls, err>>
TransferReject == Running /\ Op.t = "transfer" /\ ~TransferOk(Op) /\ Rejected(IF FieldOk(Op.field) /\ FieldOk(Op.from) THEN "KeyError" ELSE "ValueError")
Step == Plain \/ ApplyCall \/ ApplyReject \/ Transfer \/ TransferReject

(* ------------------------------------------------------- guarantees *)
FlatCalls == FoldLeft(LAMBDA a, i : a \o (CASE ops[i].t = "plain" -> <<<<i, ops[i].id>>>>
                                             [] ops[i].t = "apply" -> [k \in 1..Len(ops[i].fs) |-> <<i, ops[i].fs[k]>>]
                                             [] OTHER -> <<>>), <<>>, [i \in 1..Len(ops) |-> i])
OnceInOrder == /\ Len(calls) <= Len(FlatCalls) /\ calls = SubSeq(FlatCalls, 1, Len(calls))
               /\ (err = "" /\ pc > Len(ops) => calls = FlatCalls)
Written(o) == CASE o.t = "plain" -> {<<o.to, o.key>>}
                [] o.t = "apply" -> {<<o.field, EntryName(o, k)>> : k \in 1..(IF NamesFit(o) THEN Len(o.fs) ELSE 0)}
                [] o.t = "transfer" -> {<<o.field, o.map[i][1]>> : i \in 1..Len(o.map)}
(* a step changes only the entries its operation names *)
Frame == [][\A k \in DOMAIN res : <<"results", k>> \notin Written(Op) => res'[k] = res[k]]_rvars
FrameAux == [][\A k \in DOMAIN aux : <<"aux", k>> \notin Written(Op) => aux'[k] = aux[k]]_rvars
NothingElse == [][/\ \A k \in DOMAIN res' \ DOMAIN res : <<"results", k>> \in Written(Op)
                  /\ \A k \in DOMAIN aux' \ DOMAIN aux : <<"aux", k>> \in Written(Op)]_rvars
RejectedUnchanged == [][err' # "" => res' = res /\ aux' = aux /\ calls' = calls]_rvars
===========================================================================
