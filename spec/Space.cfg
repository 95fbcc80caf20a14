SPECIFICATION Spec
CONSTANTS
 PAGES = 5
 E = 6
 M = 3
 K = 2
 RMAX = 8
 DMAX = 0
 VARIANT = "none"
INVARIANTS Inv Bound Reclaimed 
CHECK_DEADLOCK FALSE
