SPECIFICATION Spec
INVARIANT Sound
