------------------------------ MODULE Integrated ------------------------------
(* A named dataset: downloaded when it is not stored, split when a generated   *)
(* part is requested and not cached, and answered from the files on disk. The  *)
(* process can die between any two steps and the network can fail. Files:      *)
(* 0 absent, 1 partly written, 2 complete. Broken selects a defective variant. *)
EXTENDS Integers, Sequences, TLC

CONSTANTS Broken

VARIABLES dir,     \* the downloaded files
          gen,     \* [train, test]: cached parts of the split
          job,     \* request being served
          answer,  \* last answer: <<kind, contents>>, contents "none" if an error was reported
          gets     \* downloads started since the dataset was completely stored
vars == <<dir, gen, job, answer, gets>>

Kinds == {"full", "train", "test"}
Idle == [kind |-> "none", ph |-> "idle"]
Init == dir = 0 /\ gen = [k \in {"train", "test"} |-> 0] /\ job = Idle /\ answer = <<"none", "none">> /\ gets = 0

Request(k) == job.ph = "idle" /\ job' = [kind |-> k, ph |-> "look"] /\ UNCHANGED <<dir, gen, answer, gets>>
To(ph) == job' = [job EXCEPT !.ph = ph]
Done(k, c) == job' = Idle /\ answer' = <<k, c>>
Look == /\ job.ph = "look"
        /\ (IF dir = 0 THEN To("fetch") ELSE IF job.kind # "full" /\ gen[job.kind] > 0 THEN To("cached") ELSE To("read"))
        /\ UNCHANGED <<dir, gen, answer, gets>>
Fetch == /\ job.ph = "fetch" /\ gets' = (IF dir = 2 THEN gets + 1 ELSE 0)
         /\ ((To("unpack") /\ UNCHANGED answer) \/ Done(job.kind, "none"))
         /\ UNCHANGED <<dir, gen>>
\* unpacking takes several steps; the files become visible with the last one
Unpack == /\ job.ph = "unpack" /\ dir' = (IF Broken = "partialdir" /\ dir = 0 THEN 1 ELSE 2)
          /\ (IF dir' = 2 THEN To("look") ELSE UNCHANGED job) /\ UNCHANGED <<gen, answer, gets>>
Contents(k, c) == IF c = 2 THEN k ELSE "part"
Read == /\ job.ph = "read"
        /\ (IF dir = 1 THEN Done(job.kind, "none") ELSE IF job.kind = "full" THEN Done("full", "full") ELSE To("save train") /\ UNCHANGED answer)
        /\ UNCHANGED <<dir, gen, gets>>
Save(k) == /\ job.ph = "save " \o k
           /\ gen' = [gen EXCEPT ![k] = IF Broken = "partialgen" /\ @ = 0 THEN 1 ELSE 2]
           /\ (IF gen'[k] = 1 THEN UNCHANGED <<job, answer>>
               ELSE IF k = "train" THEN To("save test") /\ UNCHANGED answer ELSE Done(job.kind, job.kind))
           /\ UNCHANGED <<dir, gets>>
Cached == job.ph = "cached" /\ Done(job.kind, Contents(IF Broken = "swapped" THEN "train" ELSE job.kind, gen[job.kind])) /\ UNCHANGED <<dir, gen, gets>>
Serve == Look \/ Fetch \/ Unpack \/ Read \/ Save("train") \/ Save("test") \/ Cached
Die == job # Idle /\ job' = Idle /\ UNCHANGED <<dir, gen, answer, gets>>
Next == (\E k \in Kinds : Request(k)) \/ Serve \/ Die
Spec == Init /\ [][Next]_vars

\* ---- properties
\* every answer is the part that was requested, whatever was interrupted before
Right == answer[2] \in {answer[1], "none"}
\* errors are only reported while the dataset cannot be downloaded
Available == [][answer' # answer /\ answer'[2] = "none" => job.ph = "fetch"]_vars
NoSecondDownload == gets = 0
=============================================================================
