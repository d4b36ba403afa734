------------------------------ MODULE Training ------------------------------
(* The training loop of the recommenders as a protocol. A state s says which   *)
(* call comes next; p are the arguments of the fit:                            *)
(*   epochs, batch, cb (callback frequency, 0: no callback), es (rule          *)
(*   frequency, 0: no early stopping rule), verbose, trainable.                *)
(* Weights are abstract values; hist[k + 1] are the weights after epoch k.     *)
EXTENDS Integers, Sequences

NoBest == -1

Begin(w) == [ph |-> "setup", e |-> 0, w |-> w, hist |-> <<>>, best |-> NoBest, called |-> <<>>, losses |-> <<>>, stopped |-> FALSE]

\* callbacks are only computed when their results are shown or used
Active(p) == p.verbose \/ p.es > 0
CallbackDue(s, p) == p.cb > 0 /\ (IF s.e = 0 THEN p.verbose ELSE Active(p) /\ s.e % p.cb = 0)
RuleDue(s, p) == p.es > 0 /\ s.e > 0 /\ s.e % p.es = 0
FinalRuleDue(s, p) == p.es > 0 /\ s.e > 0 /\ s.e % p.es # 0

\* the call that has to come next
DueTop(s, p) == IF s.e < p.epochs /\ ~s.stopped THEN "sample" ELSE IF FinalRuleDue(s, p) /\ s.ph # "final" THEN "rule" ELSE "end"
Due(s, p) ==
    CASE s.ph = "setup" -> "prefit"
      [] s.ph = "ready" -> IF ~p.trainable THEN "end" ELSE IF CallbackDue(s, p) THEN "callback" ELSE DueTop(s, p)
      [] s.ph = "sampled" -> "predict"
      [] s.ph = "predicted" -> "loss"
      [] s.ph = "lossed" -> "update"
      [] s.ph = "updated" -> IF CallbackDue(s, p) THEN "callback" ELSE IF RuleDue(s, p) THEN "rule" ELSE DueTop(s, p)
      [] s.ph = "called" -> IF RuleDue(s, p) THEN "rule" ELSE DueTop(s, p)
      [] s.ph = "designated" -> "stop"
      [] s.ph \in {"top", "final"} -> DueTop(s, p)

\* ---- effects
DoPrefit(s, p) == [s EXCEPT !.ph = "ready", !.hist = IF p.trainable THEN <<s.w>> ELSE <<>>]
DoSample(s) == [s EXCEPT !.ph = "sampled", !.e = @ + 1]
DoPredict(s) == [s EXCEPT !.ph = "predicted"]
DoLoss(s, loss) == [s EXCEPT !.ph = "lossed", !.losses = Append(@, loss)]
DoUpdate(s, w) == [s EXCEPT !.ph = "updated", !.w = w, !.hist = Append(@, w)]
DoCallback(s) == [s EXCEPT !.ph = "called", !.called = Append(@, s.e)]
\* the rule designates an epoch, or cannot be computed (NoBest): the last designation stands
DoRule(s, p, best) ==
    [s EXCEPT !.ph = IF ~RuleDue(s, p) THEN "final" ELSE IF best = NoBest THEN "top" ELSE "designated",
              !.best = IF best = NoBest THEN @ ELSE best]
DoStop(s, answer) == [s EXCEPT !.ph = "top", !.stopped = answer]
DoEnd(s) == [s EXCEPT !.ph = "done", !.w = IF s.best = NoBest THEN @ ELSE s.hist[s.best + 1]]

\* ---- the maximum validation value rule: results are values per called epoch
FirstMax(vals) == CHOOSE i \in DOMAIN vals : (\A j \in DOMAIN vals : vals[j] <= vals[i]) /\ (\A j \in 1..(i - 1) : vals[j] < vals[i])
MaxRule(called, vals) == called[FirstMax(vals)]
=============================================================================
