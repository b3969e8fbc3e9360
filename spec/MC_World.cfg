SPECIFICATION Spec
CONSTANT Depth = 14
INVARIANTS Kept Sound
