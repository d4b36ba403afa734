SPECIFICATION Spec
CONSTANTS
  Values = {0, 1, 2, 3}
  MaxRows = 2
  Bug = "crossed"
INVARIANTS ZeroAtTargets OnlyThere Monotone OthersIrrelevant Reached Missing StandardLaws LabelLaws
CHECK_DEADLOCK FALSE
