SPECIFICATION MCSpec
CONSTANTS
  Devs = {0, 1}
  Fns = {0}
  Delays = {0, 1, 2}
  MaxAdds = 9
  MaxTicks = 9
  MaxCalls = 5
  Reacts <- MCReacts
INVARIANTS NothingLate NothingPast FiredOnce IdsUnique Emit
