SPECIFICATION Spec
CONSTANTS
  Values = {0, 1, 2, 3}
  MaxRows = 3
  Bug = "none"
INVARIANTS ZeroAtTargets OnlyThere Monotone OthersIrrelevant Reached Missing LearnableLaws StandardLaws LabelLaws
CHECK_DEADLOCK FALSE
