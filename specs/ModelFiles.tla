----------------------------- MODULE ModelFiles -----------------------------
(* Saving and loading models. A model instance holds a version (what it learnt *)
(* in one fit); a file holds the version saved to it; loading gives a new      *)
(* instance with the version of the file. Answers depend on the version only.  *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Insts, Files, MaxVersion, Mode
VARIABLES inst, file, next, shared
vars == <<inst, file, next, shared>>
None == 0

Init == inst = [i \in Insts |-> None] /\ file = [f \in Files |-> None] /\ next = 1 /\ shared = {}

Fit(i) == /\ next <= MaxVersion /\ next' = next + 1
          /\ inst' = [j \in Insts |-> IF j = i \/ (Mode = "alias" /\ {i, j} \in shared) THEN next ELSE inst[j]]
          /\ UNCHANGED <<file, shared>>
Save(i, f) == inst[i] # None /\ file' = [file EXCEPT ![f] = inst[i]] /\ UNCHANGED <<inst, next>>
              /\ shared' = shared
Load(i, f) == file[f] # None /\ inst[i] = None /\ inst' = [inst EXCEPT ![i] = file[f]] /\ UNCHANGED <<file, next>>
              /\ shared' = shared \cup {{i, j} : j \in {j \in Insts : inst[j] = file[f]}}
Next == \E i \in Insts : Fit(i) \/ \E f \in Files : Save(i, f) \/ Load(i, f)
Spec == Init /\ [][Next]_vars

\* fitting, saving and loading change no other instance, and files only change by saving to them
Independent == [][\A i, j \in Insts : i # j /\ inst'[i] # inst[i] => inst'[j] = inst[j]]_vars
FilesStay == [][\A f \in Files : file'[f] # file[f] => \E i \in Insts : inst[i] = file'[f]]_vars
=============================================================================
