SPECIFICATION Spec
CONSTANTS
  NU = 3
  NI = 2
  Ratings = {0, 2, 6}
  Metrics = {"cosine", "adjusted_cosine", "jaccard", "pearson", "msd", "cosine_cf"}
  Ks = {1, 2}
  Ms = {0, 2}
  Mode = "ok"
INVARIANTS Symmetric Admissible Between
CHECK_DEADLOCK FALSE
