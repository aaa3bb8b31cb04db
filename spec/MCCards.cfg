SPECIFICATION MCSpec
CONSTANTS
  Ctx = {0, 1}
  Names = {"x.deck"}
  MaxOps = 4
INVARIANTS TypeOK Emit
PROPERTIES Isolated Conserved
