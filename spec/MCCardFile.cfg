SPECIFICATION MCSpec
CONSTANTS
  Cols = {0, 7, 13, 256, 1282, 4095, 3842}
  MaxCards = 1
INVARIANTS RoundTrip CodesDistinct
