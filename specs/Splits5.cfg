SPECIFICATION Spec
CONSTANTS
  Users = {u1, u2, u3, u4, u5}
  Workers = {w1, w2, w3, w4}
  MaxFail = 2
  Bug = "none"
INVARIANTS ScheduleIndependent ErrorsRaised NoSpuriousError MutualExclusion
PROPERTY Terminates
CHECK_DEADLOCK FALSE
