SPECIFICATION Spec
CONSTANT Depth = 3
INVARIANTS OnePieces Undone
PROPERTIES Isometry Exact Sums Flags Refused
CHECK_DEADLOCK FALSE
