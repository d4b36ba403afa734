SPECIFICATION Spec
CONSTANT Broken = "partialdir"
INVARIANTS Right NoSecondDownload
PROPERTY Available
CHECK_DEADLOCK FALSE
