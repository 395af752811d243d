SPECIFICATION Spec
VIEW View
CONSTANT Names <- All
CONSTANT Depth = 4
