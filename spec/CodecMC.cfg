SPECIFICATION Spec
CONSTANT MAXLEN = 6
INVARIANTS Faithful Round Pair One Detect Split
CHECK_DEADLOCK FALSE
