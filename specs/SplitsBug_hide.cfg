SPECIFICATION Spec
CONSTANTS
  Users = {u1, u2, u3}
  Workers = {w1, w2}
  MaxFail = 1
  Bug = "hide"
INVARIANTS ErrorsRaised
CHECK_DEADLOCK FALSE
