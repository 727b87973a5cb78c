SPECIFICATION Spec
CONSTANTS
  Lazy = FALSE
  Greedy = FALSE
  Litters = FALSE
  Careless = TRUE
  MaxWork = 2
INVARIANTS NothingOpen TheirsOpen NoOtherFile AsItWas Surfaces Emit
PROPERTIES Ends
CHECK_DEADLOCK FALSE
