--------------------------- MODULE MCEvaluation ---------------------------
(* The machine with the accumulation the code performs: per evaluation the  *)
(* list of batch results, joined at the end.                                *)
EXTENDS Evaluation, Json
CONSTANTS Emit, N1, N2, MaxEvs, MaxDepth
VARIABLES got,   \* id -> sequence of batches of rows
          out,   \* id -> answer
          log
vars == <<stack, evs, sizes, got, out, log>>
Val(d, c, p) == <<100 * d + 10 * c + p, (7 * p * p + c) % 5>>
Forms == {"ds", "gen", "api-whole", "api-stream", "on"}
Reds(f) == IF f \in {"on"} THEN {"identity"} ELSE IF f = "gen" THEN {"identity", "concat"} ELSE {"identity", "flip", "last", "sum", "max"}
Colls == 1..2
Init == stack = <<>> /\ evs = <<>> /\ sizes = <<N1, N2>> /\ got = <<>> /\ out = <<>> /\ log = <<>>
DoOpen(ds, f, c, r) == LET o == [t |-> "open", id |-> Len(evs) + 1, ds |-> ds, form |-> f, coll |-> c, red |-> r] IN
   Len(evs) < MaxEvs /\ Len(stack) < MaxDepth /\ Open(o) /\ got' = Append(got, <<>>) /\ out' = Append(out, <<>>) /\ log' = Append(log, o)
DoPull(m) == stack # <<>> /\ LET i == Top  e == evs[i] IN
   Pull(i, m) /\ got' = [got EXCEPT ![i] = Append(@, [k \in 1..m |-> Val(e.ds, e.coll, e.pos + k)])] /\ UNCHANGED out
              /\ log' = Append(log, [t |-> "pull", id |-> i, m |-> m])
RECURSIVE Joined(_)
Joined(bs) == IF bs = <<>> THEN <<>> ELSE Head(bs) \o Joined(Tail(bs))
Whole(e) == [p \in 1..sizes[e.ds] |-> Val(e.ds, e.coll, p)]
DoClose == stack # <<>> /\ LET i == Top  e == evs[i] IN
   Close(i) /\ out' = [out EXCEPT ![i] = Reduced(e.red, IF IsStream(i) THEN Joined(got[i]) ELSE Whole(e))] /\ UNCHANGED got
            /\ log' = Append(log, [t |-> "close", id |-> i])
Next == \/ \E ds \in 1..2, f \in {"ds", "gen", "api-stream"}, c \in Colls, r \in {"identity", "sum"} : DoOpen(ds, f, c, r)
        \/ \E m \in 1..N1 : DoPull(m)
        \/ DoClose
Spec == Init /\ [][Next]_vars
Done(i) == ~evs[i].open
(* what the caller relies on *)
EveryPointOnceInOrder == \A i \in DOMAIN evs : IsStream(i) =>
   LET r == Joined(got[i]) IN Len(r) = evs[i].pos \/ Done(i)
Correct == \A i \in DOMAIN evs : IF Done(i) THEN out[i] = Reduced(evs[i].red, Whole(evs[i]))
                                 ELSE \A k \in 1..evs[i].pos : IsStream(i) => Joined(got[i])[k] = Val(evs[i].ds, evs[i].coll, k)
SameAnswer == \A i, j \in DOMAIN evs :
   Done(i) /\ Done(j) /\ evs[i].ds = evs[j].ds /\ evs[i].coll = evs[j].coll /\ evs[i].red = evs[j].red => out[i] = out[j]
Nested == \A i \in DOMAIN evs : evs[i].open <=> \E k \in 1..Len(stack) : stack[k] = i
(* an evaluation in progress is not touched by the ones nested in it *)
Isolated == [][\A i \in DOMAIN evs : (i \in DOMAIN evs' /\ evs'[i] # evs[i]) => Top = i]_vars
(* ------------------------------------------------------------- scenarios *)
InitG == stack = <<>> /\ evs = <<>> /\ sizes \in {1, 2, 3, 5, 7, 9, 24} \X (1..6) /\ got = <<>> /\ out = <<>> /\ log = <<>>
GenOpen == \E ds \in {RandomElement(1..2)}, f \in {RandomElement(Forms)}, c \in {RandomElement(Colls)} :
             \E r \in {RandomElement(Reds(f))} : DoOpen(ds, f, c, r)
GenNext == IF stack = <<>> THEN GenOpen
           ELSE IF ~IsStream(Top) THEN DoClose
           ELSE IF Room(Top) = 0 THEN DoClose
           ELSE \E r \in {RandomElement(1..5)} :
                  IF r = 1 /\ Len(evs) < MaxEvs /\ Len(stack) < MaxDepth THEN GenOpen
                  ELSE \E m \in {RandomElement(1..Room(Top))} : DoPull(IF r = 2 THEN 1 ELSE m)
EmitLog == Emit /\ stack = <<>> /\ Len(evs) = MaxEvs => PrintT("GEN|" \o ToJson([sizes |-> sizes, log |-> log]))
===========================================================================
