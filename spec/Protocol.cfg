SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Mutation = {}
  Sim = FALSE
  World = {"fresh"}
  MaxSteps = 4
  Acts = {"issue","fin","show","none"}
  Final = {"ver","vros"}
  TargetTypes = {"pres"}
INVARIANT Agree
INVARIANT Exact
INVARIANT Returned
INVARIANT Honest
INVARIANT SavedEqual
