SPECIFICATION Spec
CONSTANTS
  Group = "fixed"
  Keys = {0}
  Modes = {0}
  PMs = {0}
INVARIANTS TypeOK Decided KeyProtects PswKept Suppressed Laws FLaws Emit
