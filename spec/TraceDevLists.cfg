SPECIFICATION TSpec
INVARIANTS Unique Placed
