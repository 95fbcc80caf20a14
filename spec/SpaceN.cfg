SPECIFICATION Spec
CONSTANTS
 PAGES = 7
 E = 6
 M = 2
 K = 2
 RMAX = 4
 DMAX = 2
 VARIANT = "none"
INVARIANTS Inv Bound Reclaimed Never
CHECK_DEADLOCK FALSE
