SPECIFICATION Spec
CONSTANT N = 3
CONSTRAINT RankBound
INVARIANT Refines
INVARIANT MarksAreUnions
