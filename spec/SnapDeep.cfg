SPECIFICATION Spec
VIEW View
CONSTANT Names = {"a10", "b11", "b21", "wB", "fB", "uA", "sn2", "rnw", "rkp", "r1n"}
CONSTANT Depth = 6
