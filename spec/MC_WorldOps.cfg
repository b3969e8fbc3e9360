INIT Init
NEXT Next
INVARIANTS Typed Kept Grows Offered
