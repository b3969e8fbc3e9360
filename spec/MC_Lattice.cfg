SPECIFICATION Spec
CONSTANT Depth = 2
INVARIANTS OnePieces Undone
PROPERTIES Isometry Exact Sums Flags Refused
CHECK_DEADLOCK FALSE
