SPECIFICATION Spec
CONSTANTS
  NU = 3
  NI = 2
  Ratings = {0, 1000000, 2}
  Metrics = {"cosine", "adjusted_cosine", "pearson", "msd", "cosine_cf"}
  Ks = {1}
  Ms = {2}
  Mode = "ok"
INVARIANTS Symmetric Admissible Between
CHECK_DEADLOCK FALSE
