SPECIFICATION Spec
CONSTANT Emit = TRUE
INVARIANT Hist
