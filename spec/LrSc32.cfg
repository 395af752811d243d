SPECIFICATION Spec
VIEW View
CONSTANTS
 X = 32
 Depth = 4
