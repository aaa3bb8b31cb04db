SPECIFICATION Spec
CONSTANT Emit = FALSE
INVARIANT Laws
