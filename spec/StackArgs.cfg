SPECIFICATION Spec
INVARIANTS Fits Refused Program Aligned Tight Others
CONSTANT Lens = {0, 1, 7, 8, 90, 100, 215, 224, 239, 247}
CONSTANT MaxArgs = 3
CHECK_DEADLOCK FALSE
