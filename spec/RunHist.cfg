SPECIFICATION Spec
VIEW View
INVARIANTS Exact Ends Fits Used
PROPERTY Held
CONSTANT Chunks = {"p1", "p14", "p15", "p16", "p17", "p33", "mul", "jmp", "sig", "chg", "lop"}
CONSTANT MaxChunks = 2
CONSTANT Rounds = 1
