SPECIFICATION Spec
VIEW View
CONSTANTS
 X = 64
 Depth = 3
