SPECIFICATION Spec
CONSTANTS Procs = {1, 2}
 Keys = {1, 2}
 Files = {1, 2, 3}
 Broken = "keepfile"
INVARIANTS Readable NoLeak Registered UserFiles
PROPERTY Collected
CHECK_DEADLOCK FALSE
