SPECIFICATION Spec
CONSTANTS Mutation = {} MaxSteps = 2 MaxLen = 2
INVARIANTS VerifiesExactly MakesExactly Emit
CHECK_DEADLOCK FALSE
