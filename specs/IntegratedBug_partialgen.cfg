SPECIFICATION Spec
CONSTANT Broken = "partialgen"
INVARIANTS Right NoSecondDownload
PROPERTY Available
CHECK_DEADLOCK FALSE
