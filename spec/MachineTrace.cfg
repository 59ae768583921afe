SPECIFICATION Spec
CONSTANT Mutation = {}
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
