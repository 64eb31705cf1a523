-------------------------- MODULE MCModeMachine --------------------------
EXTENDS ModeMachine, Json
CONSTANTS MaxLen, MaxDepth, Emit
Ps == {"", P32, P64}
Init == global \in {TRUE, FALSE} /\ ctx = <<>> /\ calls = <<>> /\ hist = <<>>
Next == /\ Len(hist) < MaxLen
        /\ \/ \E b \in {TRUE, FALSE} : UserSet(b) \/ (Len(ctx) < 2 /\ UserEnter(b))
           \/ UserExit
           \/ (Len(calls) < MaxDepth /\ \E mv \in Ps, calc \in {P32, P64}, ret \in Ps : Start(mv, calc, ret))
           \/ Eval \/ Return \/ Raise
Spec == Init /\ [][Next]_mvars
(* a step of a call never touches the process-wide switch nor the user's contexts *)
CallFrame == [][calls # calls' => global' = global /\ SelectSeq(ctx', LAMBDA x : x.owner = "user") = SelectSeq(ctx, LAMBDA x : x.owner = "user")]_mvars
FoundAgain == [][Len(calls') < Len(calls) => IF ctx' = <<>> THEN global' = Last(calls).found ELSE Last(ctx').on = Last(calls).found]_mvars
(* generator: histories of user steps and whole calls *)
GInit == global \in {TRUE, FALSE} /\ ctx = <<>> /\ calls = <<>> /\ hist = <<>>
GCall(how) == /\ UNCHANGED <<global, ctx, calls>> /\ Log(<<how>>)
GNext == /\ Len(hist) < MaxLen
         /\ \/ \E b \in {TRUE, FALSE} : UserSet(b) \/ (Len(ctx) < 1 /\ UserEnter(b))
            \/ UserExit
            \/ \E how \in {"lanczos", "lobpcg", "high", "nested", "fail", "loader"} : GCall(how)
EmitHist == Emit /\ Len(hist) = MaxLen => PrintT("GEN|" \o ToJson([ops |-> hist]))
===========================================================================
