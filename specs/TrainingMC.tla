----------------------------- MODULE TrainingMC -----------------------------
(* Two fits in a row of one recommender, with every argument combination and  *)
(* every behaviour of the early stopping rule. The weights after epoch k of    *)
(* fit f are f * 100 + k. Bug: deliberately broken designs.                    *)
EXTENDS Training
CONSTANTS MaxEpochs, MaxFreq, Bug
VARIABLES s, p, fit, old
vars == <<s, p, fit, old>>

Params == [epochs : 0..MaxEpochs, cb : 0..MaxFreq, es : 0..MaxFreq, verbose : BOOLEAN, trainable : BOOLEAN]
Init == p \in Params /\ s = Begin(100) /\ fit = 1 /\ old = <<>>

End(t) ==
    CASE Bug = "offbyone" -> [t EXCEPT !.ph = "done", !.w = IF t.best \in {NoBest, 0} THEN @ ELSE t.hist[t.best]]
      [] Bug = "stale" -> [t EXCEPT !.ph = "done", !.w = IF t.best = NoBest THEN @ ELSE (old \o t.hist)[t.best + 1]]
      [] Bug = "laststop" -> [t EXCEPT !.ph = "done", !.w = IF t.best = NoBest \/ t.stopped THEN @ ELSE t.hist[t.best + 1]]
      [] OTHER -> DoEnd(t)

Step ==
    LET d == Due(s, p)
    IN /\ s.ph # "done"
       /\ CASE d = "prefit" -> s' = DoPrefit(s, p)
            [] d = "sample" -> s' = DoSample(s)
            [] d = "predict" -> s' = DoPredict(s)
            [] d = "loss" -> s' = DoLoss(s, s.e)
            [] d = "update" -> s' = DoUpdate(s, fit * 100 + s.e)
            [] d = "callback" -> s' = DoCallback(s)
            [] d = "rule" -> \E b \in {NoBest} \cup (IF Bug = "future" THEN 0..s.e ELSE {s.called[i] : i \in DOMAIN s.called}) : s' = DoRule(s, p, b)
            [] d = "stop" -> \E a \in BOOLEAN : s' = DoStop(s, a)
            [] d = "end" -> s' = End(s)
       /\ UNCHANGED <<p, fit, old>>
Again == s.ph = "done" /\ fit = 1 /\ fit' = 2 /\ old' = s.hist /\ s' = Begin(200) /\ p' \in Params
Next == Step \/ Again
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)

\* ---- what the protocol guarantees
Done == s.ph = "done"
Epochs == Done => (IF ~p.trainable THEN s.e = 0 ELSE s.e = p.epochs \/ s.stopped) /\ Len(s.losses) = s.e
Restored == Done => s.w = fit * 100 + (IF s.best = NoBest THEN s.e ELSE s.best)
Callbacks == Done /\ p.trainable =>
    {s.called[i] : i \in DOMAIN s.called} =
        (IF p.cb = 0 THEN {} ELSE (IF p.verbose THEN {0} ELSE {}) \cup (IF Active(p) THEN {k \in 1..s.e : k % p.cb = 0} ELSE {}))
CalledOrdered == \A i \in 1..(Len(s.called) - 1) : s.called[i] < s.called[i + 1]
HistoryComplete == (s.ph \notin {"setup", "sampled", "predicted", "lossed"} /\ p.trainable) => Len(s.hist) = s.e + 1
BestSeen == s.best # NoBest => \E i \in DOMAIN s.called : s.called[i] = s.best
NoTraining == ~p.trainable => s.e = 0 /\ s.called = <<>>
Terminates == <>(fit = 2 \/ s.ph = "done")
=============================================================================
