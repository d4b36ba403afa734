----------------------------- MODULE NeuralTrace -----------------------------
(* Real fits of CDAE, DMF and Caser. p.what selects the clauses: "protocol"    *)
(* (the training loop of Training), "stop" (early stopping) or "data" (what    *)
(* Neural prescribes). Weights arrive as one number per variable identifying   *)
(* its value, predictions in 1/100000, targets, logarithms and losses in       *)
(* 1/1000, interactions, thresholds and ranges times 8.                         *)
EXTENDS TraceBase, Training, Neural

Start0(t) == [s |-> Begin(<<>>), p |-> [what |-> "none"], data |-> <<>>]

Near(a, b, tol) == a - b <= tol /\ b - a <= tol

\* ---- training data
User(z, u) == SelectSeq(z.p.rows, LAMBDA r : r[1] = u)
HistoryFrom(z, u, low) ==
    LET keep == SelectSeq([k \in DOMAIN z.p.rows |-> k], LAMBDA k : z.p.rows[k][1] = u /\ z.p.rows[k][3] >= low)
        sorted == IF z.p.sorted THEN SortSeq(keep, LAMBDA a, b : z.p.rows[a][4] < z.p.rows[b][4] \/ (z.p.rows[a][4] = z.p.rows[b][4] /\ a < b)) ELSE keep
    IN [k \in DOMAIN sorted |-> z.p.rows[sorted[k]][2]]
\* windows are taken from the interactions reaching the threshold, rankings from all of them
History(z, u) == HistoryFrom(z, u, z.p.thr)
Whole(z, u) == HistoryFrom(z, u, z.p.lo)

CdaeClause(z, e) ==
    LET p == z.p
    IN FirstOf(<<If(Len(e.targets) = Len(e.samples) /\ Len(e.preds) = Len(e.samples), "one reconstruction per sampled user"),
                 If(\A k \in DOMAIN e.samples : e.targets[k] = [i \in 1..p.nitems |-> 1000 * Target(p.rows, e.samples[k][1], p.nitems, p.thr)[i]], "targets of a user"),
                 If(\A k \in DOMAIN e.preds : Len(e.preds[k]) = p.nitems /\ \A i \in DOMAIN e.preds[k] : e.preds[k][i] >= 0 /\ e.preds[k][i] <= 100000, "range of the reconstruction"),
                 If(p.corr => \A k \in DOMAIN e.preds : \A i \in DOMAIN e.preds[k] : Near(e.preds[k][i], e.direct[k][i], 3), "the reconstruction of an uncorrupted user differs from the prediction")>>)

DmfClause(z, e) ==
    LET p == z.p
        n == Len(e.samples)
    IN FirstOf(<<If(Len(e.targets) = 1 /\ Len(e.targets[1]) = n /\ Len(e.preds) = 1 /\ Len(e.preds[1]) = n, "one prediction per sampled pair"),
                 If(\A k \in 1..n : LET t == e.targets[1][k] s == Standard(e.samples[k][3], p.lo, p.hi)
                                    IN IF p.nce THEN Near(t * s[2], 1000 * s[1], s[2]) ELSE Near(t * 8, 1000 * e.samples[k][3], 8), "targets of a pair"),
                 If(\A k \in 1..n : e.preds[1][k] >= 0 /\ e.preds[1][k] <= 100001, "range of the predictions"),
                 If(\A k \in 1..n : Near(e.direct[1][k] * 8, 1000 * p.lo + ((p.hi - p.lo) * (e.preds[1][k] \div 10)) \div 10, 24), "the prediction in training differs from predict")>>)

CaserClause(z, e) ==
    LET p == z.p
    IN FirstOf(<<If(Len(e.targets) = Len(e.samples) /\ Len(e.preds) = Len(e.samples), "one list of predictions per sampled window"),
                 If(\A k \in DOMAIN e.samples :
                        LET s == e.samples[k]
                            h == History(z, s.uid)
                        IN \E a \in 0..(Len(h) - p.wlen - p.ntargets) :
                               /\ s.window = SubSeq(h, a + 1, a + p.wlen)
                               /\ s.targets = SubSeq(h, a + p.wlen + 1, a + p.wlen + p.ntargets), "window and targets"),
                 If(\A k \in DOMAIN e.samples : Len(e.samples[k].negatives) = p.nneg * p.ntargets, "number of negatives"),
                 If(\A k \in DOMAIN e.samples : \A n \in DOMAIN e.samples[k].negatives :
                        /\ e.samples[k].negatives[n] \in 0..(p.nitems - 1)
                        /\ ~\E r \in DOMAIN p.rows : p.rows[r][1] = e.samples[k].uid /\ p.rows[r][2] = e.samples[k].negatives[n] /\ p.rows[r][3] >= p.thr, "negatives of a window"),
                 If(\A k \in DOMAIN e.targets : e.targets[k] = [i \in 1..(p.ntargets + p.nneg * p.ntargets) |-> 1000 * Labels(p.ntargets, p.nneg * p.ntargets)[i]], "labels"),
                 If(\A k \in DOMAIN e.preds : Len(e.preds[k]) = Len(e.targets[k]) /\ \A i \in DOMAIN e.preds[k] : e.preds[k][i] >= 0 /\ e.preds[k][i] <= 100000, "range of the predictions"),
                 If(~p.drop => \A k \in DOMAIN e.samples :
                        LET h == Whole(z, e.samples[k].uid)
                        IN e.samples[k].window = LastOf(h, p.wlen) => Len(e.direct[k]) = Len(e.preds[k]) /\ \A i \in DOMAIN e.preds[k] : Near(e.preds[k][i], e.direct[k][i], 3),
                    "the prediction in training differs from the ranking scores")>>)

PredictClause(z, e) ==
    IF Len(e.samples) # z.p.batch THEN "size of the batch"
    ELSE IF z.p.model # "caser" /\ \E k \in DOMAIN e.samples : ~Learnable(z.p.rows, e.samples[k], z.p.thr) THEN "a sampled pair"
    ELSE CASE z.p.model = "cdae" -> CdaeClause(z, e)
           [] z.p.model = "dmf" -> DmfClause(z, e)
           [] z.p.model = "caser" -> CaserClause(z, e)

\* 1/1000 of the loss of one cell
Square(x) == LET d == x \div 10 IN (d * d) \div 100000
Cell(z, k, j) ==
    LET d == z.data t == d.targets[k][j]
    IN IF z.p.loss = "mse" THEN Square(100 * t - d.preds[k][j]) ELSE (t * d.lnp[k][j] + (1000 - t) * d.lnq[k][j]) \div 1000
LossClause(z, e) ==
    IF z.data.extreme THEN ""
    ELSE LET n == CellCount(z.data.preds)
         IN If(Near(e.mean * n, CellSum(LAMBDA k, j : Cell(z, k, j), z.data.preds), 12 * n), "the loss is not the mean over the predictions")

\* ---- protocol
RuleClause(z, e) ==
    LET p == z.p s == z.s
        vals(name) == [k \in DOMAIN s.called |-> p.cbvals[name][s.called[k] + 1]]
    IN FirstOf(<<If(Len(e.losses) = Len(s.losses) /\ \A k \in DOMAIN s.losses : Near(e.losses[k], s.losses[k], 1), "losses given to the rule"),
                 If(e.called = s.called, "epochs given to the rule"),
                 If(s.called = <<>> \/ (p.metric \in DOMAIN e.results /\ e.results[p.metric] = vals(p.metric)), "callback results given to the rule"),
                 If(e.best = (IF s.called = <<>> THEN NoBest ELSE MaxRule(s.called, vals(p.metric))), "epoch designated by the maximum value rule")>>)

ProtocolClause(z, e) ==
    LET s == z.s p == z.p
    IN IF e.op = "end" /\ e.err THEN "fit failed"
       ELSE IF e.op # Due(s, p) THEN e.op \o " called instead of " \o Due(s, p)
       ELSE CASE e.op = "prefit" -> If(Len(e.w) > 0, "variables of the model")
              [] e.op = "sample" -> If(e.batch = p.batch, "batch size")
              [] e.op = "predict" -> If(e.same, "the sampled batch is not the one predicted")
              [] e.op = "loss" -> If(e.same, "the loss is not computed on the predictions")
              [] e.op = "update" -> FirstOf(<<If(\A v \in DOMAIN e.times : e.times[v] = 1, "each variable is updated once per epoch"),
                                              If(Len(e.w) = Len(s.w) /\ (e.grads => e.w # s.w), "the weights do not change"),
                                              If(\A v \in DOMAIN e.expected : e.expected[v] = e.w[v], "weights after the update")>>)
              [] e.op = "callback" -> If(e.w = s.w, "weights seen by the callback")
              [] e.op = "rule" -> RuleClause(z, e)
              [] e.op = "stop" -> FirstOf(<<If(e.cur = s.e /\ e.best = s.best /\ e.target = p.epochs, "arguments of stop_training"), If(~e.ans, "the maximum value rule stops training")>>)
              [] e.op = "end" -> FirstOf(<<If(e.w = DoEnd(s).w, "weights after the fit"), If(e.fitted, "the model is not fitted"), If(p.copy => ~e.touched, "a dataset passed with copy_dataset was changed")>>)
              [] OTHER -> "unknown call"

Same(a, b) == DOMAIN a = DOMAIN b /\ \A k \in DOMAIN a : a[k][1] = b[k][1] /\ Near(a[k][2], b[k][2], 5)

DataClause(z, e) ==
    CASE e.op = "end" -> If(~e.err, "fit failed")
      [] e.op = "predict" -> PredictClause(z, e)
      [] e.op = "loss" -> LossClause(z, e)
      [] e.op = "scores" -> FirstOf(<<If(e.finite, "scores that are not finite"), If(e.stable, "scores differ when asked again"), If(e.items, "items that were not scored"),
                                      If(z.p.model = "caser" \/ \A k \in DOMAIN e.scores :
                                            IF z.p.model = "cdae" THEN e.scores[k] >= 0 /\ e.scores[k] <= 100000
                                            ELSE 8 * e.scores[k] >= 100000 * z.p.lo - 80 /\ 8 * e.scores[k] <= 100000 * z.p.hi + 80, "range of the scores")>>)
      [] e.op = "recent" -> If(Same(e.before, e.after), "the ranking depends on interactions before the last ones")
      [] OTHER -> ""

Clause0(z, e) ==
    IF e.op = "fit" THEN ""
    ELSE IF z.p.what = "data" THEN DataClause(z, e)
    ELSE IF e.op \in {"scores", "recent"} THEN ""
    ELSE ProtocolClause(z, e)

Step0(z, e) ==
    LET s == z.s p == z.p
        move == CASE e.op = "fit" -> [z EXCEPT !.s = Begin(<<>>), !.p = e.p]
                  [] e.op = "prefit" -> [z EXCEPT !.s = DoPrefit([s EXCEPT !.w = e.w], p)]
                  [] e.op = "sample" -> [z EXCEPT !.s = DoSample(s)]
                  [] e.op = "predict" -> [z EXCEPT !.s = DoPredict(s), !.data = e]
                  [] e.op = "loss" -> [z EXCEPT !.s = DoLoss(s, e.total)]
                  [] e.op = "update" -> [z EXCEPT !.s = DoUpdate(s, e.w)]
                  [] e.op = "callback" -> [z EXCEPT !.s = DoCallback(s)]
                  [] e.op = "rule" -> [z EXCEPT !.s = DoRule(s, p, e.best)]
                  [] e.op = "stop" -> [z EXCEPT !.s = DoStop(s, e.ans)]
                  [] e.op = "end" -> [z EXCEPT !.s = DoEnd(s)]
                  [] OTHER -> z
    IN IF p.what # "data" THEN move
       ELSE IF e.op = "fit" THEN move ELSE IF e.op = "predict" THEN [z EXCEPT !.data = e] ELSE z

Expected0(z, e) ==
    IF z.p.what # "data" THEN <<z.s, IF z.s.ph = "done" THEN "-" ELSE Due(z.s, z.p)>>
    ELSE IF e.op = "loss" THEN <<CellSum(LAMBDA k, j : Cell(z, k, j), z.data.preds), CellCount(z.data.preds)>> ELSE <<>>
=============================================================================
