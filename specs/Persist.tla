------------------------------- MODULE Persist -------------------------------
(* Datasets and the sqlite files they are saved to. Saving writes the records  *)
(* to a temporary file next to the target and renames it over the target; it   *)
(* can fail, and the process can die, between any two steps. Other operations  *)
(* never change a file. Broken selects a defective variant, which must be      *)
(* caught by one of the properties.                                            *)
EXTENDS Integers, FiniteSets, TLC, PersistLaws

CONSTANTS Paths, Insts, Tables, Broken

VARIABLES file,   \* path -> contents of the file
          tmp,    \* path -> contents of the temporary file next to it
          inst,   \* instance -> [open, src, rows]; src: the file it was loaded from
          job,    \* the save in progress
          may     \* path -> the contents a reader may find there
vars == <<file, tmp, inst, job, may>>

NoPath == 0
Closed == [open |-> FALSE, src |-> NoPath, rows |-> <<>>]
Idle == [ph |-> "idle", i |-> 0, p |-> 0, n |-> 0]

Init == /\ file = [p \in Paths |-> Absent] /\ tmp = [p \in Paths |-> Absent]
        /\ inst = [i \in Insts |-> Closed] /\ job = Idle
        /\ may = [p \in Paths |-> {Absent}]

Free == job.ph = "idle"
Create(i, t) == Free /\ ~inst[i].open /\ inst' = [inst EXCEPT ![i] = [open |-> TRUE, src |-> NoPath, rows |-> t]] /\ UNCHANGED <<file, tmp, job, may>>
Load(i, p) == /\ Free /\ ~inst[i].open /\ file[p].full
              /\ inst' = [inst EXCEPT ![i] = [open |-> TRUE, src |-> p, rows |-> file[p].rows]]
              /\ may' = [may EXCEPT ![p] = {file[p]}] /\ UNCHANGED <<file, tmp, job>>
\* any modification of the records an instance shows
Modify(i) == /\ Free /\ inst[i].open /\ inst[i].rows # <<>>
             /\ LET r == Tail(inst[i].rows) IN
                /\ inst' = [inst EXCEPT ![i].rows = r]
                /\ file' = IF Broken = "share" /\ inst[i].src # NoPath THEN [file EXCEPT ![inst[i].src] = Full(r)] ELSE file
             /\ UNCHANGED <<tmp, job, may>>
Close(i) == Free /\ inst[i].open /\ inst' = [inst EXCEPT ![i] = Closed] /\ UNCHANGED <<file, tmp, job, may>>

Users(p) == {i \in Insts : inst[i].open /\ inst[i].src = p}
Begin(i, p) == /\ Free /\ inst[i].open /\ Users(p) \subseteq {i}
               /\ job' = [ph |-> IF Broken = "keeptmp" THEN "create" ELSE "clean", i |-> i, p |-> p, n |-> 0]
               /\ may' = [may EXCEPT ![p] = Allowed(file[p], inst[i].rows)] /\ UNCHANGED <<file, tmp, inst>>
To(ph) == job' = [job EXCEPT !.ph = ph]
Clean == job.ph = "clean" /\ tmp' = [tmp EXCEPT ![job.p] = Absent] /\ To("create") /\ UNCHANGED <<file, inst, may>>
\* the target of the writes
Written(c) == IF Broken = "inplace" THEN file' = [file EXCEPT ![job.p] = c] /\ UNCHANGED tmp ELSE tmp' = [tmp EXCEPT ![job.p] = c] /\ UNCHANGED file
CreateTmp == job.ph = "create" /\ ~tmp[job.p].there /\ Written(Partial(<<>>)) /\ To("write") /\ UNCHANGED <<inst, may>>
Write == /\ job.ph = "write" /\ job.n < Len(inst[job.i].rows)
         /\ Written(Partial(SubSeq(inst[job.i].rows, 1, job.n + 1)))
         /\ job' = [job EXCEPT !.n = @ + 1] /\ UNCHANGED <<inst, may>>
Commit == /\ job.ph = "write" /\ job.n = Len(inst[job.i].rows)
          /\ Written(Full(inst[job.i].rows)) /\ To(IF Broken = "removefirst" THEN "unlink" ELSE "swap") /\ UNCHANGED <<inst, may>>
Unlink == job.ph = "unlink" /\ file' = [file EXCEPT ![job.p] = Absent] /\ To("swap") /\ UNCHANGED <<tmp, inst, may>>
Swap == /\ job.ph = "swap"
        /\ (IF Broken = "inplace" THEN UNCHANGED <<file, tmp>> ELSE file' = [file EXCEPT ![job.p] = tmp[job.p]] /\ tmp' = [tmp EXCEPT ![job.p] = Absent])
        /\ job' = Idle
        /\ may' = [may EXCEPT ![job.p] = {Full(inst[job.i].rows)}] /\ UNCHANGED inst
SaveStep == Clean \/ CreateTmp \/ Write \/ Commit \/ Unlink \/ Swap
\* an error is reported to the caller, whose dataset is as before
Fail == ~Free /\ job' = Idle /\ UNCHANGED <<file, tmp, inst, may>>
Crash == inst' = [i \in Insts |-> Closed] /\ job' = Idle /\ UNCHANGED <<file, tmp, may>>

Next == \/ \E i \in Insts : (\E t \in Tables : Create(i, t)) \/ (\E p \in Paths : Load(i, p) \/ Begin(i, p)) \/ Modify(i) \/ Close(i)
        \/ SaveStep \/ Fail \/ Crash
Spec == Init /\ [][Next]_vars

\* ---- properties
\* a file holds its previous or its new contents, whatever happened
Atomic == \A p \in Paths : file[p] \in may[p]
NeverPartial == \A p \in Paths : file[p].there => file[p].full
\* files only change when a complete save is renamed over them
Untouched == [][\A p \in Paths : file'[p] # file[p] => job.ph = "swap" /\ job.p = p]_vars
\* an interrupted save never blocks later ones
Progress == ~Free => ENABLED SaveStep
\* the contents of a completed save are the rows of the dataset
Saved == [][\A p \in Paths : job.ph = "swap" /\ job.p = p /\ job' = Idle /\ file' # file => file'[p] = Full(inst[job.i].rows)]_vars
=============================================================================
