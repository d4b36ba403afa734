SPECIFICATION Spec
CONSTANTS
  Cols = 3
  Ratings <- MCRatings
INVARIANTS Symmetric Bounded SelfSimilar ShiftInvariant ScaleInvariant CoRatedOnly
CHECK_DEADLOCK FALSE
