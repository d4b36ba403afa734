SPECIFICATION Spec
CONSTANTS
  Values = {1, 2, 3}
  MaxRows = 4
  Bug = "none"
INVARIANTS ZeroAtTargets OnlyThere Monotone OthersIrrelevant Reached Missing LearnableLaws StandardLaws LabelLaws
CHECK_DEADLOCK FALSE
