SPECIFICATION MCSpec
CONSTANTS
  MaxOps = 5
  Lens = {1, 2}
  Fmts = {0}
  Rings = {TRUE, FALSE}
INVARIANTS TypeOK Emit
PROPERTIES KeepsBefore Protected OnlyWrites
