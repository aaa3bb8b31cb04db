SPECIFICATION MCSpec
CONSTANT MaxOps = 4
INVARIANTS Unique Placed FoundOK Emit
