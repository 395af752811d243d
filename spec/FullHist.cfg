SPECIFICATION Spec
VIEW View
CONSTANT Names <- Full
CONSTANT Depth = 5
