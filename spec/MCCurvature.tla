--------------------------- MODULE MCCurvature ---------------------------
(* Data points are visited in any order and accumulated; all models, losses *)
(* and small datasets of a family.                                          *)
EXTENDS Curvature, Json
CONSTANTS Params, Inputs, NData, Emit
VARIABLES mod, L, th, data, left, G, H
vars == <<mod, L, th, data, left, G, H>>
m(c, xs, ps) == [c |-> c, xs |-> xs, ps |-> ps]
Models == {
  << <<m(1, <<1>>, <<1>>), m(1, <<2>>, <<2>>)>>, <<m(2, <<2>>, <<1>>), m(1, <<>>, <<3>>)>> >>,      \* linear
  << <<m(1, <<1>>, <<1, 3>>), m(1, <<2>>, <<2, 3>>)>>, <<m(-1, <<1>>, <<1>>), m(1, <<>>, <<2, 2>>)>> >>, \* bilinear
  << <<m(1, <<1, 1>>, <<1, 1, 2>>), m(1, <<>>, <<3>>)>>, <<m(2, <<2>>, <<3, 3>>)>> >>,              \* cubic
  << <<m(1, <<1>>, <<1>>)>>, <<m(1, <<2>>, <<1>>), m(3, <<>>, <<2, 3>>)>> >> }
Losses == { [kind |-> "mse", S |-> 1, C |-> 2, terms |-> <<>>], [kind |-> "none", S |-> 1, C |-> 2, terms |-> <<>>],
            [kind |-> "ce", S |-> 4, C |-> 2, terms |-> <<>>], [kind |-> "bce", S |-> 4, C |-> 2, terms |-> <<>>],
            [kind |-> "custom", S |-> 1, C |-> 2, terms |-> <<m(1, <<1>>, <<1, 1>>), m(1, <<>>, <<1, 2>>), m(2, <<2>>, <<2, 2, 2>>)>>],
            [kind |-> "custom", S |-> 1, C |-> 2, terms |-> <<m(1, <<>>, <<1, 1>>), m(2, <<>>, <<1, 2>>), m(1, <<>>, <<2, 2>>)>>] }
Samples(K) == [x : Inputs \X Inputs, y : IF K.kind \in {"ce", "bce"} THEN {<<4, 0>>, <<0, 4>>, <<1, 3>>} ELSE {<<0, 1>>, <<2, -1>>},
               w : IF K.kind \in {"ce", "bce"} THEN {<<1, 3>>, <<0, 4>>} ELSE {<<1, 1>>}]
PT == {-1, 2}
P == 3
Init == /\ mod \in Models /\ L \in Losses /\ th \in Params \X Params \X Params
        /\ data \in [1..NData -> Samples(L)]
        /\ left = 1..NData /\ G = ZeroM(P, P) /\ H = ZeroM(P, P)
Visit(i) == /\ i \in left /\ left' = left \ {i}
            /\ G' = AddM(G, GGNOf(mod, L, th, data[i]))
            /\ H' = AddM(H, HessOf(mod, L, th, data[i]))
            /\ UNCHANGED <<mod, L, th, data>>
Next == \E i \in left : Visit(i)
Spec == Init /\ [][Next]_vars
Done == left = {}
All == [i \in 1..NData |-> i]
OrderIndependent == Done => G = GGN(mod, L, th, data, All) /\ H = Hessian(mod, L, th, data, All)
Symmetric == IsSym(G) /\ IsSym(H)
LinearAgrees == LinearInParams(mod) => G = H
NoLossHasNoModelCurvature == L.kind = "none" => G = H
Convex == L.kind # "custom" => \A v \in {<<1, 0, 0>>, <<0, 1, -1>>, <<1, 1, 1>>, <<1, -2, 1>>} : Quad(G, v) >= 0
SoftmaxNull == \* shifting all logits does not change the loss: its Hessian annihilates constants
  L.kind = "ce" => \A i \in 1..NData : MatVec(LossHess(L, <<0, 0>>, data[i]), <<1, 1>>) = <<0, 0>>
EmitCase == Emit /\ left = 1..NData => PrintT("GEN|" \o ToJson([mod |-> mod, L |-> L, th |-> th, data |-> data]))
===========================================================================
