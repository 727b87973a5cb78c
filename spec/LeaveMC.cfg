SPECIFICATION Spec
CONSTANTS
  Lazy = FALSE
  Greedy = FALSE
  Litters = FALSE
  Careless = FALSE
  MaxWork = 4
INVARIANTS NothingOpen TheirsOpen NoOtherFile AsItWas Surfaces Emit
PROPERTIES Ends
CHECK_DEADLOCK FALSE
