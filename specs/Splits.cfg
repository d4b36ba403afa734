SPECIFICATION Spec
CONSTANTS
  Users = {u1, u2, u3, u4}
  Workers = {w1, w2, w3}
  MaxFail = 1
  Bug = "none"
INVARIANTS ScheduleIndependent ErrorsRaised NoSpuriousError MutualExclusion
PROPERTY Terminates
CHECK_DEADLOCK FALSE
