----------------------------- MODULE MCFitting -----------------------------
EXTENDS Fitting, Json
CONSTANTS MaxN, MaxFits, MaxPosts, Emit, MaxOps
VARIABLES hist
mvars == <<fvars, hist>>
Mats == { <<<<1, 0>>, <<0, 0>>>>, <<<<1, 1>>, <<1, 1>>>>, <<<<4, -2>>, <<-2, 1>>>>, <<<<0, 0>>, <<0, 0>>>> }
RECURSIVE Comps(_)
Comps(n) == IF n = 0 THEN {<<>>} ELSE UNION { { <<k>> \o c : c \in Comps(n - k) } : k \in 1..n }
Kinds == {"full", "diagonal", "lowrank"}
Init == /\ \E n \in 1..MaxN : rows \in [1..n -> Mats]
        /\ den0 \in {1, 9} /\ run = <<>> /\ fits = <<>> /\ posts = <<>> /\ hist = <<>>
Next == /\ UNCHANGED hist
        /\ \/ \E k \in Kinds, q \in {<<1, 1>>, <<3, 2>>}, c \in Comps(N) : Len(fits) < MaxFits /\ StartFit(k, q[1], q[2], c)
           \/ Pass
           \/ Finish
           \/ \E k \in 1..Len(fits), a \in {<<1, 4, 4>>, <<5, 2, 8>>} : Len(posts) < MaxPosts /\ Condition(k, a[1], a[2], a[3])
Spec == Init /\ [][Next]_mvars
(* ------------------------------------------------------------- scenarios *)
Forms == {"pair", "mapping", "stream-pair", "stream-list", "stream-mapping", "transform-pair", "transform-mapping", "transform-stream", "transform-list", "steps", "steps-stream"}
Whole(f) == f \in {"pair", "mapping", "transform-pair", "transform-mapping", "steps"}
GenInit == /\ rows \in {[i \in 1..n |-> <<<<1>>>>] : n \in 1..MaxN} /\ den0 = 1 /\ run = <<>> /\ fits = <<>> /\ posts = <<>> /\ hist = <<>>
GenNext == /\ Len(hist) < MaxOps
           /\ \E r \in {RandomElement(1..9)} :
              IF fits = <<>> \/ r <= 3 THEN
                 \E f \in {RandomElement(Forms)} :
                 \E c \in {IF Whole(f) THEN <<N>> ELSE RandomElement(Comps(N))}, k \in {RandomElement({"full", "diagonal", "lanczos", "lobpcg", "full"})}, num \in {RandomElement(1..4)}, den \in {RandomElement({1, 1, 2, 4})} :
                   /\ Fit(k, num, den)
                   /\ hist' = Append(hist, [op |-> "fit", form |-> f, kind |-> k, num |-> num, den |-> den, cuts |-> c, jit |-> RandomElement(BOOLEAN), vm |-> RandomElement(BOOLEAN)])
              ELSE IF posts = <<>> \/ r <= 6 THEN
                 \E k \in {RandomElement(1..Len(fits))} :
                   /\ Condition(k, 4, 4, 4)
                   /\ hist' = Append(hist, [op |-> "cond", k |-> k])
              ELSE \E k \in {RandomElement(1..Len(posts))} :
                   /\ UNCHANGED fvars
                   /\ hist' = Append(hist, [op |-> "use", k |-> k])
EmitCase == Emit /\ Len(hist) = MaxOps => PrintT("GEN|" \o ToJson([n |-> N, ops |-> hist]))
=============================================================================
