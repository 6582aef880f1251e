SPECIFICATION Spec
VIEW View
POSTCONDITION Written
CHECK_DEADLOCK FALSE
