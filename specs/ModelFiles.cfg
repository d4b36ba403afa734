SPECIFICATION Spec
CONSTANTS
  Insts = {i1, i2, i3}
  Files = {f1, f2}
  MaxVersion = 3
  Mode = "ok"
PROPERTIES Independent FilesStay
CHECK_DEADLOCK FALSE
