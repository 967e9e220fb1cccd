SPECIFICATION Spec
CONSTANTS
  Names = {"A", "O2", "hv"}
  Coefs = {10000, 20000}
  MaxRx = 1
  MaxTerms = 2
  ProbeVals = {1, 2, 3}
INVARIANTS Numbering Covered NoPhoton FirstAppearance JacIsDerivative Conservation BackgroundInert Uncoupled
PROPERTY AppendOnly
CHECK_DEADLOCK FALSE
