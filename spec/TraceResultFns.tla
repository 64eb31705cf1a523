-------------------------- MODULE TraceResultFns --------------------------
(* Recorded runs of lists of result functions against ResultFns: the        *)
(* functions report every call they receive; probes report both             *)
(* dictionaries.                                                            *)
EXTENDS ResultFns, TraceLib
VARIABLES l
tvars == <<rvars, l>>
PairSet(s) == {<<s[i][1], s[i][2]>> : i \in 1..Len(s)}
DictOf(s) == [k \in {s[i][1] : i \in 1..Len(s)} |-> (CHOOSE x \in PairSet(s) : x[1] = k)[2]]
TInit == /\ l = 1 /\ ops = <<>> /\ pc = 1 /\ sub = 0 /\ res = DictOf(<<>>) /\ aux = DictOf(<<>>) /\ local = {} /\ calls = <<>> /\ err = ""
Probe == /\ Running /\ Op.t = "probe" /\ pc' = pc + 1 /\ UNCHANGED <<ops, sub, res, aux, local, calls, err>>
Skip == UNCHANGED rvars
Dicts(e) == IF PairSet(e.res) # Pairs(res) THEN "results-are-not-as-left-by-the-predecessors"
            ELSE IF PairSet(e.aux) # Pairs(aux) THEN "auxiliary-entries-are-not-as-left-by-the-predecessors" ELSE "ok"
Turn(t) == Running /\ Op.t = t
(* a function applied to a bad destination may be called before the rejection *)
Doomed == Running /\ Op.t = "apply" /\ ~FieldOk(Op.field) /\ Known(Op) /\ NamesFit(Op)
CallV(e) ==
  IF e.kind = "plain"
  THEN IF ~(Turn("plain") /\ Op.id = e.id) THEN "called-out-of-turn"
       ELSE IF PairSet(e.args) # local THEN "extra-arguments-differ" ELSE Dicts(e)
  ELSE IF Doomed /\ e.id \in {Op.fs[i] : i \in 1..Len(Op.fs)} THEN "ok"
       ELSE IF ~(Turn("apply") /\ ApplyOk(Op)) THEN "called-although-rejected-or-out-of-turn"
       ELSE IF Op.fs[sub + 1] # e.id THEN "called-out-of-turn"
       ELSE IF PairSet(e.args) # Args(Op) THEN "received-other-entries-than-mapped" ELSE "ok"
TransV(e) == IF ~Turn("transfer") THEN "transfer-out-of-turn" ELSE IF ~TransferOk(Op) THEN "transfer-accepted" ELSE "ok"
RaisedV(e) == IF Turn("apply") /\ ~ApplyOk(Op) THEN (IF e.err = "ValueError" THEN "ok" ELSE "rejected-with-" \o e.err)
              ELSE IF Turn("transfer") /\ ~TransferOk(Op) THEN "ok" ELSE "raised-" \o e.err
ProbeV(e) == IF ~Turn("probe") THEN "called-out-of-turn" ELSE Dicts(e)
FinalV(e) == IF err # "" THEN (IF e.err = "" THEN "error-swallowed" ELSE "ok")
             ELSE IF e.err # "" THEN "raised-" \o e.err
             ELSE IF pc <= Len(ops) THEN "functions-left-out"
             ELSE IF PairSet(e.res) # Pairs(res) THEN "final-results" ELSE "ok"
(* building one operation: exactly the non-callables are type errors, bad destinations may be rejected here or when run *)
ConstructV(e) == IF e.bad THEN (IF e.err = "TypeError" THEN "ok" ELSE "non-callable-accepted")
                 ELSE IF e.err = "" THEN "ok"
                 ELSE IF ~FieldOk(e.op.field) \/ (e.op.t = "transfer" /\ ~FieldOk(e.op.from)) \/ (e.op.t = "apply" /\ ~NamesFit(e.op))
                      THEN (IF e.err = "ValueError" THEN "ok" ELSE "rejected-with-" \o e.err)
                      ELSE "construction-raised-" \o e.err
SameV(e) == IF e.ok THEN "ok" ELSE "changed-" \o e.what
EvV(e) == CASE e.ev = "Call" -> CallV(e) [] e.ev = "Transferred" -> TransV(e) [] e.ev = "Raised" -> RaisedV(e) [] e.ev = "Probe" -> ProbeV(e)
            [] e.ev = "Final" -> FinalV(e) [] e.ev = "Construct" -> ConstructV(e) [] e.ev = "Unchanged" -> SameV(e) [] OTHER -> "unexpected-" \o e.ev
Do(e) == CASE e.ev = "Call" /\ e.kind = "plain" -> Plain
           [] e.ev = "Call" /\ e.kind # "plain" -> IF Doomed THEN Skip ELSE ApplyCall
           [] e.ev = "Transferred" -> Transfer
           [] e.ev = "Raised" -> ApplyReject \/ TransferReject
           [] e.ev = "Probe" -> Probe
           [] OTHER -> Skip
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN
            IF e.ev = "Begin"
            THEN /\ ops' = <<>> /\ pc' = 1 /\ sub' = 0 /\ calls' = <<>> /\ err' = "" /\ res' = DictOf(<<>>) /\ aux' = DictOf(<<>>) /\ local' = {}
            ELSE IF e.ev = "Start"
            THEN /\ ops' = e.ops /\ pc' = 1 /\ sub' = 0 /\ calls' = <<>> /\ err' = "" /\ res' = DictOf(e.res) /\ aux' = DictOf(e.aux) /\ local' = PairSet(e.local)
            ELSE LET v == EvV(e) IN Verdict(e, v) /\ (IF v = "ok" THEN Do(e) ELSE Skip)
TSpec == TInit /\ [][TNext]_tvars
===========================================================================
