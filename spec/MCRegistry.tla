---------------------------- MODULE MCRegistry ----------------------------
EXTENDS Registry, Json
CONSTANTS Emit, MaxOps, FullSubsets
(* three names that may be registered, one of them a built-in one *)
Names == {"n1", "n2", "base"}
Factor(i, s) == 1 + ((3 * i + (CHOOSE k \in 1..6 : Stages[k] = s)) % 4)
Subsets == IF FullSubsets THEN SUBSET SetS ELSE {{}, SetS} \cup {{s} : s \in SetS} \cup {SetS \ {s} : s \in SetS}
Listed(S) == SelectSeq(Stages, LAMBDA s : s \in S)
Give(id, S) == LET q == Listed(S) IN [i \in 1..Len(q) |-> <<q[i], 10 * id + (CHOOSE k \in 1..6 : Stages[k] = q[i]), Factor(id, q[i])>>]
Init == reg = [n \in {"base", "other"} |-> BuiltIn] /\ cal = [n \in {"grid_search"} |-> 0] /\ past = <<>>
Next == Len(past) < MaxOps /\
        \/ \E n \in Names, S \in Subsets, d \in DOMAIN reg \cup {""} :
             Register([t |-> "register", nm |-> n, give |-> Give(Len(past) + 1, S), default |-> d])
        \/ \E n \in {"m1", "grid_search"} : RegisterCal([t |-> "calibration", nm |-> n, id |-> Len(past) + 1])
Spec == Init /\ [][Next]_rvars
(* every method is complete, whatever was rejected or overwritten *)
Complete == \A n \in DOMAIN reg : DOMAIN reg[n] = SetS
OnlyAccepted == \A n \in DOMAIN reg : n \in {"base", "other"} \/ \E i \in 1..Len(past) : past[i].t = "register" /\ past[i].nm = n /\ Accepted(past[i])
(* the last accepted registration of a name decides its supplied stages *)
Supplied == \A n \in DOMAIN reg :
   LET is == {i \in 1..Len(past) : past[i].t = "register" /\ past[i].nm = n /\ Accepted(past[i])}
   IN  is = {} \/ LET o == past[CHOOSE i \in is : \A j \in is : j <= i] IN \A s \in Given(o) : reg[n][s] = GiveTag(o, s)
Untouched == reg["other"] = BuiltIn
(* every stage that is no built-in was supplied by a registration *)
NoInvention == \A n \in DOMAIN reg, s \in SetS : reg[n][s][1] # 0 => \E i \in 1..Len(past) : past[i].t = "register" /\ s \in Given(past[i]) /\ reg[n][s] = GiveTag(past[i], s)
(* a step changes one name only *)
OneName == [][\E n \in Names : \A m \in DOMAIN reg : m # n => reg'[m] = reg[m]]_rvars
(* ------------------------------------------------------------- scenarios *)
(* random behaviours: one successor per state *)
Opts(n) == IF n % 3 = 0 THEN {""} ELSE DOMAIN reg
GenNext == Len(past) < MaxOps /\ \E r \in {RandomElement(1..12)} :
   IF r = 12 THEN \E n \in {RandomElement({"m1", "grid_search"})} : RegisterCal([t |-> "calibration", nm |-> n, id |-> Len(past) + 1])
   ELSE \E n \in {RandomElement(Names)}, S \in {RandomElement(SUBSET SetS)}, d \in {RandomElement(Opts(r))} :
          \E S2 \in {IF d = "" /\ r > 4 THEN SetS ELSE S} : Register([t |-> "register", nm |-> n, give |-> Give(Len(past) + 1, S2), default |-> d])
EmitOps == Emit /\ Len(past) = MaxOps => PrintT("GEN|" \o ToJson(past))
===========================================================================
