SPECIFICATION BSpec
POSTCONDITION Accepted
