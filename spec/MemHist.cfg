SPECIFICATION Spec
VIEW View
CONSTANT Names <- All
CONSTANT Stale = FALSE
