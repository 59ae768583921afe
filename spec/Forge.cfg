SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Mutation = {}
  Sim = FALSE
  Goals = {"credential","roster","issuance","trivial"}
  Coeffs = {0,1,3}
  MaxNonZero = 2
INVARIANT Forged
INVARIANT Emit
