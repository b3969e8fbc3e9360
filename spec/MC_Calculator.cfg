SPECIFICATION Spec
CONSTANT Some = {"A", "B"}
VIEW View
INVARIANTS Aligned OwnFibres FrameBack
PROPERTIES Stateless OthersKept
