CONSTANT Sel = FALSE
SPECIFICATION Spec
INVARIANTS Once Answered OneCode Masked Comes
CHECK_DEADLOCK FALSE
