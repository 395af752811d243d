SPECIFICATION Spec
VIEW View
CONSTANT Names = {"gsA", "gsB", "glA", "glB", "glS", "res", "cod", "cos", "iAB", "xA", "cxA", "stA"}
CONSTANT Stale = TRUE
