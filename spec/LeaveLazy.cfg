SPECIFICATION Spec
CONSTANTS
  Lazy = TRUE
  Greedy = FALSE
  Litters = FALSE
  Careless = FALSE
  MaxWork = 2
INVARIANTS NothingOpen TheirsOpen NoOtherFile AsItWas Surfaces Emit
PROPERTIES Ends
CHECK_DEADLOCK FALSE
