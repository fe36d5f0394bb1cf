SPECIFICATION Spec
CHECK_DEADLOCK FALSE
ALIAS Brief
INVARIANT Conforms
