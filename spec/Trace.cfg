INIT TInit
NEXT TNext
CONSTRAINT TConstraint
POSTCONDITION TPost
CHECK_DEADLOCK FALSE
