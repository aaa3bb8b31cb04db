SPECIFICATION MCSpec
CONSTANT MaxTok = 4
INVARIANTS Law1 Law2 Law3 Law4 Emit
