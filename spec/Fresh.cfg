SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Mutation = {}
  Sim = FALSE
  MaxSteps = 2
  MaxPairs = 20
  Single = 1000
  Kinds2 = {"show","ashow","issue","entry","tag","key","sav"}
INVARIANT Distinct
INVARIANT Unrelated
INVARIANT Independent
INVARIANT Works
INVARIANT Emit
