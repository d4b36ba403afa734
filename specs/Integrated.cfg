SPECIFICATION Spec
CONSTANT Broken = "none"
INVARIANTS Right NoSecondDownload
PROPERTY Available
CHECK_DEADLOCK FALSE
