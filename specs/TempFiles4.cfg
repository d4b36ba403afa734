SPECIFICATION Spec
CONSTANTS Procs = {1, 2, 3}
 Keys = {1, 2}
 Files = {1, 2, 3, 4}
 Broken = "none"
INVARIANTS Readable NoLeak Registered UserFiles
PROPERTY Collected
CHECK_DEADLOCK FALSE
