--------------------------- MODULE ModeMachine ---------------------------
(* The 64-bit mode as the process sees it. global: process-wide switch;    *)
(* ctx: stack of local overrides of the running thread (user contexts and  *)
(* the scopes of running calls); calls: stack of running solver calls with *)
(* the modes they found. A call may only leave a scope it entered itself.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
VARIABLES global, ctx, calls, hist
mvars == <<global, ctx, calls, hist>>
Eff == IF ctx = <<>> THEN global ELSE Last(ctx).on
P32 == "float32"
P64 == "float64"
Default(on) == IF on THEN P64 ELSE P32
(* precision requested, "" for unspecified *)
Want(p, on) == IF p = "" THEN Default(on) ELSE p
Needs(mv, calc, ret) == P64 \in {mv, calc, ret}
Idle == calls = <<>>
Log(x) == hist' = Append(hist, x)
UserSet(b) == Idle /\ ctx = <<>> /\ global' = b /\ Log(<<"set", b>>) /\ UNCHANGED <<ctx, calls>>
UserEnter(b) == Idle /\ ctx' = Append(ctx, [on |-> b, owner |-> "user"]) /\ Log(<<"enter", b>>) /\ UNCHANGED <<global, calls>>
UserExit == Idle /\ ctx # <<>> /\ ctx' = Front(ctx) /\ Log(<<"exit", Eff>>) /\ UNCHANGED <<global, calls>>
(* a call resolves its precisions against the mode it finds, then opens its scope *)
Start(mv, calc, ret) ==
  LET m == Want(mv, Eff) r == Want(ret, Eff) c == IF calc = "" THEN P64 ELSE calc IN
  /\ calls' = Append(calls, [mv |-> m, calc |-> c, ret |-> r, found |-> Eff, depth |-> Len(ctx)])
  /\ ctx' = Append(ctx, [on |-> Needs(m, c, r), owner |-> "call"])
  /\ Log(<<"start", mv, calc, ret>>) /\ UNCHANGED global
(* the operator is evaluated at the requested precision (possible in this mode) *)
Eval == calls # <<>> /\ Log(<<"eval", Last(calls).mv>>) /\ UNCHANGED <<global, ctx, calls>>
Close(how) == /\ calls # <<>> /\ calls' = Front(calls) /\ ctx' = SubSeq(ctx, 1, Last(calls).depth)
              /\ Log(<<how, Last(calls).ret>>) /\ UNCHANGED global
Return == Close("return")
Raise == Close("raise")
(* invariants *)
Restored == \A i \in 1..Len(calls) : Len(ctx) > calls[i].depth
RestoredAfter == Idle => \A i \in 1..Len(ctx) : ctx[i].owner = "user"
Representable == calls # <<>> => (Needs(Last(calls).mv, Last(calls).calc, Last(calls).ret) => Eff)
===========================================================================
