SPECIFICATION Spec
INVARIANTS Disjoint Intact Prefix Whole Told Heeded
PROPERTY Terminates
CHECK_DEADLOCK FALSE
