SPECIFICATION Spec
CONSTANTS
  Lazy = FALSE
  Greedy = FALSE
  Litters = TRUE
  Careless = FALSE
  MaxWork = 2
INVARIANTS NothingOpen TheirsOpen NoOtherFile AsItWas Surfaces Emit
PROPERTIES Ends
CHECK_DEADLOCK FALSE
