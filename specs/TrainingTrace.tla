---------------------------- MODULE TrainingTrace ----------------------------
(* Calls recorded during real fits (and direct calls of the maximum value     *)
(* rule) against the protocol. Weights, gradients, metric values and           *)
(* interactions arrive times 8, losses times 64.                               *)
EXTENDS TraceBase, Training, FiniteSetsExt, SequencesExt

Start0(t) == [s |-> Begin(<<>>), p |-> [badcb |-> -1]]

Grad(p, e) == [v \in DOMAIN p.w0 |-> p.grads[e][v] + p.reg[v]]
Loss(p, w, e) == FoldLeft(LAMBDA a, v : a + w[v] * Grad(p, e)[v], 0, [v \in DOMAIN w |-> v])
Failed(z) == z.s.ph # "setup" /\ z.p.badcb >= 0 /\ z.s.called # <<>> /\ Last(z.s.called) = z.p.badcb
Results(z, name) == [k \in DOMAIN z.s.called |-> z.p.cbvals[name][z.s.called[k] + 1]]

PrefitClause(z, e) ==
    LET p == z.p
        users == {p.rows[i][1] : i \in DOMAIN p.rows}
        items == {p.rows[i][2] : i \in DOMAIN p.rows}
        ints == {p.rows[i][3] : i \in DOMAIN p.rows}
    IN FirstOf(<<If(e.ids, "internal ids are not assigned before the setup"),
                 If({e.pairs[i] : i \in DOMAIN e.pairs} = {<<IndexFirstSubSeq(<<r[1]>>, p.users) - 1, IndexFirstSubSeq(<<r[2]>>, p.items) - 1>> : r \in {p.rows[i] : i \in DOMAIN p.rows}}, "internal ids seen by the setup"),
                 If(e.nusers = Cardinality(users) /\ e.nitems = Cardinality(items) /\ e.nrows = Len(p.rows), "numbers of users, items or rows"),
                 If(e.max = Max(ints) /\ e.min = (IF Min(ints) = 8 THEN 0 ELSE Min(ints)), "interaction range"),
                 If(e.args = p.args /\ e.kw = p.depth, "arguments of the setup")>>)

RuleClause(z, e) ==
    LET p == z.p s == z.s
        m == p.metric
        vals == Results(z, m)
    IN FirstOf(<<If(e.losses = s.losses, "losses given to the rule"),
                 If(e.called = s.called, "epochs given to the rule"),
                 If(s.called = <<>> \/ \A n \in DOMAIN p.cbvals : n \in DOMAIN e.results /\ e.results[n] = Results(z, n), "callback results given to the rule"),
                 IF p.rule # "max" THEN ""
                 ELSE If(e.best = (IF s.called = <<>> THEN NoBest ELSE MaxRule(s.called, vals)), "epoch designated by the maximum value rule")>>)

\* direct calls of the rule: metric, results (name -> values), form
MaxRuleClause(e) ==
    LET hits == {i \in DOMAIN e.results : IF e.exact THEN e.results[i].full = e.metric ELSE e.results[i].base = e.metric}
    IN IF ~e.wellformed \/ hits = {} \/ (\E i \in hits : e.results[i].vals = <<>>) THEN If(e.refused, "missing, empty or malformed results are not rejected")
       ELSE FirstOf(<<If(~e.refused /\ ~e.err, "the rule failed"),
                      If(e.best = MaxRule(e.called, e.results[CHOOSE i \in hits : TRUE].vals), "epoch designated by the maximum value rule"),
                      If(~e.stop, "the maximum value rule stops training")>>)

Clause0(z, e) ==
    LET s == z.s p == z.p
    IN IF e.op = "maxrule" THEN MaxRuleClause(e)
       ELSE IF e.op = "fit" THEN ""
       ELSE IF e.op = "end" /\ Failed(z) THEN If(e.err, "a callback result that is not a dict is accepted")
       ELSE IF e.op = "end" /\ e.err THEN "fit failed"
       ELSE IF Failed(z) \/ e.op # Due(s, p) THEN e.op \o " called instead of " \o Due(s, p)
       ELSE CASE e.op = "prefit" -> PrefitClause(z, e)
              [] e.op = "sample" -> FirstOf(<<If(e.batch = p.batch, "batch size"), If(e.kw = p.depth, "arguments of the fit are not passed on")>>)
              [] e.op = "predict" -> FirstOf(<<If(e.same, "the sampled batch is not the one predicted"), If(e.kw = p.depth, "arguments of the fit are not passed on")>>)
              [] e.op = "loss" -> If(e.same, "the loss is not computed on the predictions")
              [] e.op = "update" -> FirstOf(<<If(e.times = [v \in DOMAIN p.w0 |-> 1], "each variable is updated once per epoch"),
                                              If(e.grads = Grad(p, s.e), "gradients of the loss"),
                                              If(e.opt = p.opt, "optimizer"),
                                              If(e.reg = <<p.args[3], p.sizes[s.e]>> \o p.parts, "arguments of the regularization loss"),
                                              If(e.w = [v \in DOMAIN s.w |-> s.w[v] - Grad(p, s.e)[v]], "weights after the update")>>)
              [] e.op = "callback" -> FirstOf(<<If(e.w = s.w, "weights seen by the callback"), If(e.model, "model given to the callback")>>)
              [] e.op = "rule" -> RuleClause(z, e)
              [] e.op = "stop" -> FirstOf(<<If(e.cur = s.e /\ e.best = s.best /\ e.target = p.epochs, "arguments of stop_training"),
                                            If(p.rule # "max" \/ ~e.ans, "the maximum value rule stops training")>>)
              [] e.op = "end" -> FirstOf(<<If(e.w = DoEnd(s).w, "weights after the fit"), If(e.fitted, "the model is not fitted"),
                                           If(p.copy => ~e.touched, "a dataset passed with copy_dataset was changed"),
                                           If(~p.copy => e.own, "the dataset passed is not the one used")>>)
              [] OTHER -> "unknown call"

Step0(z, e) ==
    LET s == z.s p == z.p
    IN CASE e.op = "maxrule" -> z
         [] e.op = "fit" -> [s |-> Begin(e.p.w0), p |-> e.p]
         [] e.op = "prefit" -> [z EXCEPT !.s = DoPrefit(s, p)]
         [] e.op = "sample" -> [z EXCEPT !.s = DoSample(s)]
         [] e.op = "predict" -> [z EXCEPT !.s = DoPredict(s)]
         [] e.op = "loss" -> [z EXCEPT !.s = DoLoss(s, Loss(p, s.w, s.e))]
         [] e.op = "update" -> [z EXCEPT !.s = DoUpdate(s, e.w)]
         [] e.op = "callback" -> [z EXCEPT !.s = DoCallback(s)]
         [] e.op = "rule" -> [z EXCEPT !.s = DoRule(s, p, e.best)]
         [] e.op = "stop" -> [z EXCEPT !.s = DoStop(s, e.ans)]
         [] e.op = "end" -> [z EXCEPT !.s = DoEnd(s)]

Expected0(z, e) == IF e.op = "maxrule" THEN <<>> ELSE <<z.s, IF z.s.ph = "done" THEN "-" ELSE Due(z.s, z.p)>>
=============================================================================
