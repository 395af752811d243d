SPECIFICATION Spec
VIEW View
CONSTANT Names = {"iA0", "iA3", "iB1", "stS", "fiS", "gsS", "gsA", "xA", "cxA", "xB", "cxB", "cdA", "cdB", "xlS"}
CONSTANT Stale = FALSE
