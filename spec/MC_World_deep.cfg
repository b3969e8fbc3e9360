SPECIFICATION Spec
CONSTANT Depth = 30
INVARIANTS Kept Sound
