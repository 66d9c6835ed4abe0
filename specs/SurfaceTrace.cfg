SPECIFICATION Spec
POSTCONDITION Accepted
