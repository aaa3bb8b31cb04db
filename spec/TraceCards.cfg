SPECIFICATION TSpec
CONSTANTS
  Ctx = {0, 1, 2}
  Names = {"x.deck", "y.deck"}
INVARIANTS TypeOK
PROPERTIES Isolated
