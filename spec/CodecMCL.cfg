SPECIFICATION Spec
CONSTANT MAXLEN = 9
INVARIANTS Faithful Round Pair One Detect Split
CHECK_DEADLOCK FALSE
