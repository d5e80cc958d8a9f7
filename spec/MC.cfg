SPECIFICATION Spec
CONSTRAINT Bound
INVARIANT ModelOk
INVARIANT Emit
PROPERTY Appending
CHECK_DEADLOCK FALSE
