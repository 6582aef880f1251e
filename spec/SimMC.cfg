SPECIFICATION Spec
INVARIANT Correct
CONSTRAINT Record
POSTCONDITION Reached
CHECK_DEADLOCK FALSE
