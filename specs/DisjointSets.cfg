SPECIFICATION Spec
CONSTANT N = 4
CONSTRAINT RankBound
INVARIANT Refines
INVARIANT MarksAreUnions
