SPECIFICATION Spec
CONSTANT Broken = "swapped"
INVARIANTS Right NoSecondDownload
PROPERTY Available
CHECK_DEADLOCK FALSE
