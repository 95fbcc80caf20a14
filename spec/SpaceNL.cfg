SPECIFICATION Spec
CONSTANTS
 PAGES = 9
 E = 7
 M = 3
 K = 3
 RMAX = 5
 DMAX = 3
 VARIANT = "none"
INVARIANTS Inv Bound Reclaimed Never
CHECK_DEADLOCK FALSE
