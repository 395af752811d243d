SPECIFICATION Spec
VIEW View
CONSTANT Names = {"stC", "stO", "fiO", "gsO", "gsC", "glO", "cdC", "iC0", "gsB", "glB", "res", "cos"}
CONSTANT Stale = FALSE
