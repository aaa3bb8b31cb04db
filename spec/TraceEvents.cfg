SPECIFICATION TSpec
INVARIANTS NothingLate NothingPast FiredOnce IdsUnique
