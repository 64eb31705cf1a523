-------------------------- MODULE TraceEvaluation --------------------------
(* Recorded evaluations against the machine of Evaluation and the metrics   *)
(* of the requested collections on the prediction of each point. Integer    *)
(* metrics carry 3 binary digits (K), the library's metrics units of 1/U.   *)
EXTENDS Evaluation, Predictives, Metrics, PolyModel, TraceLib
VARIABLES l, w
tvars == <<l, w, stack, evs, sizes>>
K == 8
TInit == l = 1 /\ w = <<>> /\ stack = <<>> /\ evs = <<>> /\ sizes = <<>>
N(d) == Len(w.ds[d].xs)
(* ------------------------------------------- prediction of point p of d *)
Vec(sh, v) == [sh |-> sh, v |-> v]
LinJ(x) == Jac(w.mod, w.th, x)
LinVar(x) == LET J == LinJ(x) IN [c \in 1..Len(w.mod) |-> Dot(MatVec(w.num, J[c]), J[c])]
Target(d, p) == Vec(w.tsh, w.ds[d].ts[p])
Field(f, d, p) == LET x == w.ds[d].xs[p] IN
  IF f = "target" THEN Target(d, p)
  ELSE IF w.kind = "fn" THEN Vec(w.osh, Outputs(w.fields[CHOOSE k \in 1..Len(w.fields) : w.fields[k].nm = f].mod, <<>>, x))
  ELSE IF f \in {"map", "pred_mean"} THEN Vec(w.osh, Outputs(w.mod, w.th, x))
  ELSE IF f = "pred_var" THEN Vec(w.osh, LinVar(x))
  ELSE Vec(w.osh, LET v == LinVar(x) IN [c \in 1..Len(v) |-> ISqrt(v[c])])
FieldNames == IF w.kind = "fn" THEN {w.fields[k].nm : k \in 1..Len(w.fields)} ELSE {"map", "pred_mean", "pred_var", "pred_std"}
(* ---------------------------------------------------------------- metrics *)
(* a collection is a sequence of groups [src, items]; the operands of a     *)
(* group are looked up before its items run: in the results so far, then in *)
(* the prediction (src = "mapped"), or in the prediction only ("aux")       *)
Wide(a, b) == IF a.sh = <<>> THEN b.sh ELSE a.sh
At(a, c) == IF Len(a.v) = 1 THEN a.v[1] ELSE a.v[c]
Pair(a, b, F(_, _)) == Vec(Wide(a, b), [c \in 1..Max2(Len(a.v), Len(b.v)) |-> F(At(a, c), At(b, c))])
Eighths(a) == ScaleV(8, a.v)
\* operands a, b, c; numbers k and opt; result in units of 1/K or 1/U
Op(it, a, b, c, opt, act) ==
  CASE it.op = "diff2" -> Pair(a, b, LAMBDA x, y : (x - y) * (x - y))
    [] it.op = "lin" -> Pair(a, b, LAMBDA x, y : x + it.k * y)
    [] it.op = "kw" -> Pair(a, b, LAMBDA x, y : x + opt * y)
    [] it.op = "sum" -> Vec(<<>>, <<it.k * SumSeq(a.v)>>)
    [] it.op = "max" -> Vec(<<>>, <<MaxSeq(a.v)>>)
    [] it.op = "const" -> Vec(<<>>, <<it.k>>)
    [] it.op = "rmse" -> Vec(<<>>, <<Rmse(Eighths(a), Eighths(c))>>)
    [] it.op = "chi" -> Vec(<<>>, <<Chi(Eighths(a), Eighths(b), Eighths(c), TRUE)>>)
    [] it.op = "nll" -> Vec(<<>>, <<Nll(Eighths(a), Eighths(b), Eighths(c), TRUE)>>)
    [] it.op = "crps" -> Vec(<<>>, <<Crps(Eighths(a), Eighths(b), Eighths(c), TRUE)>>)
    [] it.op = "nll1" -> Vec(<<>>, <<Nll(Eighths(a), Eighths(b), [i \in 1..Len(a.v) |-> IF i = c.v[1] THEN 8 ELSE 0], TRUE)>>)
    [] it.op = "conf" -> Vec(<<>>, <<MaxSeq(Softmax(ScaleV(U, a.v)))>>)
    [] it.op = "act" -> Vec(<<>>, <<MaxSeq(act)>>)
    [] it.op = "correct" -> Vec(<<>>, <<U * (IF ArgMax(a.v) = c.v[1] THEN 1 ELSE 0)>>)
Scaled(it) == it.op \in {"rmse", "chi", "nll", "crps", "nll1", "conf", "act", "correct"}
LookIn(r, d, p, f, src) == IF src = "mapped" /\ f \in DOMAIN r THEN r[f] ELSE IF f = "" THEN Vec(<<>>, <<0>>) ELSE Field(f, d, p)
Act(d, p) == IF w.kind = "class" THEN w.ds[d].act[p] ELSE <<>>
\* r: metric name -> [sh, v]
Put(r, f, x) == TLCEval([n \in DOMAIN r \cup {f} |-> IF n = f THEN x ELSE r[n]])
RunGroup(r, g, d, p, opt) == FoldLeft(LAMBDA acc, it : Put(acc, it.nm, Op(it, LookIn(r, d, p, it.a, g.src), LookIn(r, d, p, it.b, g.src), LookIn(r, d, p, it.c, g.src), opt, Act(d, p))), r, g.items)
RunAll(gs, d, p, opt) == FoldLeft(LAMBDA acc, g : RunGroup(acc, g, d, p, opt), <<>>, gs)
Answers(gs, d, opt) == TLCEval([p \in 1..N(d) |-> RunAll(gs, d, p, opt)])
LastItem(gs, f) == LET it == FoldLeft(LAMBDA acc, g : acc \o g.items, <<>>, gs)
                       is == {i \in 1..Len(it) : it[i].nm = f} IN it[CHOOSE i \in is : \A j \in is : j <= i]
UnitOf(gs, f) == IF Scaled(LastItem(gs, f)) THEN U ELSE K
(* expected shape and values of one entry *)
WantSh(red, sh, n) == IF OverPoints(red) THEN <<n>> \o sh ELSE sh
(* tolerance: exact for integer metrics *)
Tol(it, v) == CASE ~Scaled(it) -> 0 [] it.op = "act" -> 3 [] OTHER -> 12 + Abs(v) \div 2000
EntryOf(es, f) == es[CHOOSE i \in 1..Len(es) : es[i].nm = f]
EntryOk(f, ent, it, sh, rows, red) ==
  LET scale == IF Scaled(it) THEN 1 ELSE K
      want == Flat(Reduced(red, rows))
      tol == IF red = "sum" THEN Len(rows) ELSE 1
  IN  IF ent.sh # WantSh(red, sh, Len(rows)) THEN f \o "-shape"
      ELSE IF Len(ent.v) # Len(want) THEN f \o "-size"
      ELSE IF \A k \in 1..Len(want) : Near(ent.v[k], scale * want[k], tol * Tol(it, want[k])) THEN "ok"
      ELSE f \o "-is-not-the-metric-of-each-point"
FirstBad(vs) == IF \A i \in 1..Len(vs) : vs[i] = "ok" THEN "ok" ELSE vs[CHOOSE i \in 1..Len(vs) : vs[i] # "ok" /\ \A j \in 1..(i - 1) : vs[j] = "ok"]
Names(es) == {es[i].nm : i \in 1..Len(es)}
MetricsV(e, o) ==
  LET gs == w.colls[o.coll].groups
      A == Answers(gs, o.ds, e.opt)
      ns == DOMAIN A[1]
  IN  IF Names(e.res) # ns THEN "other-metrics-than-requested"
      ELSE FirstBad([i \in 1..Len(e.res) |-> LET f == e.res[i].nm IN
             EntryOk(f, e.res[i], LastItem(gs, f), A[1][f].sh, [p \in 1..N(o.ds) |-> A[p][f].v], o.red)])
(* predictions and targets of every point, stacked *)
PredictV(e, o) ==
  IF Names(e.res) # FieldNames \cup {"target"} THEN "other-entries-than-predicted"
  ELSE FirstBad([i \in 1..Len(e.res) |-> LET f == e.res[i].nm IN
        EntryOk(f, e.res[i], [op |-> "lin"], Field(f, o.ds, 1).sh, [p \in 1..N(o.ds) |-> Field(f, o.ds, p).v], "identity")])
Pref(f, v) == IF v = "ok" THEN v ELSE f \o ":" \o v
CloseV(e) ==
  IF e.id \notin DOMAIN evs \/ stack = <<>> \/ Top # e.id THEN "answered-out-of-turn"
  ELSE LET o == evs[e.id] IN Pref(o.form,
       IF e.err # "" THEN "raised-" \o e.err
       ELSE IF e.parts # <<>> /\ o.form = "gen" /\ o.red = "identity" /\ e.parts # e.cuts THEN "batches-differ"
       ELSE IF o.form = "on" THEN PredictV(e, o) ELSE MetricsV(e, o))
OpenV(e) == IF CanOpen THEN "ok" ELSE "out-of-turn"
PullV(e) == IF e.id \in DOMAIN evs /\ CanPull(e.id, e.m) THEN "ok" ELSE "batch-out-of-turn"
Drop(s, i) == SelectSeq(s, LAMBDA j : j # i)
SameV(e) == IF e.ok THEN "ok" ELSE "changed-" \o e.what
RejectV(e) == IF e.err = "ValueError" THEN "ok" ELSE "accepted-" \o e.what
AcceptV(e) == IF e.err = "" THEN "ok" ELSE "rejected-" \o e.what
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN
            CASE e.ev = "Begin" -> w' = e /\ stack' = <<>> /\ evs' = <<>> /\ sizes' = [d \in 1..Len(e.ds) |-> Len(e.ds[d].xs)]
              [] e.ev = "Open" -> /\ UNCHANGED w /\ Verdict(e, OpenV(e)) /\ IF CanOpen THEN Open(e) ELSE UNCHANGED evars
              [] e.ev = "Pull" -> /\ UNCHANGED w /\ Verdict(e, PullV(e)) /\ IF PullV(e) = "ok" THEN Pull(e.id, e.m) ELSE UNCHANGED evars
              [] e.ev = "Close" -> /\ UNCHANGED <<w, sizes>> /\ Verdict(e, CloseV(e))
                                   /\ stack' = Drop(stack, e.id) /\ evs' = IF e.id \in DOMAIN evs THEN [evs EXCEPT ![e.id].open = FALSE] ELSE evs
              [] OTHER -> /\ UNCHANGED <<w, stack, evs, sizes>>
                          /\ Verdict(e, CASE e.ev = "Same" -> SameV(e) [] e.ev = "Reject" -> RejectV(e) [] e.ev = "Accept" -> AcceptV(e) [] OTHER -> "unexpected-" \o e.ev)
TSpec == TInit /\ [][TNext]_tvars
===========================================================================
