SPECIFICATION Spec
CONSTANTS
 PAGES = 6
 E = 5
 M = 3
 K = 3
 RMAX = 8
 DMAX = 0
 VARIANT = "none"
INVARIANTS Inv Bound Reclaimed 
CHECK_DEADLOCK FALSE
