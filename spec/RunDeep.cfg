SPECIFICATION Spec
VIEW View
INVARIANTS Exact Ends Fits Used
PROPERTY Held
CONSTANT Chunks = {"p1", "p16", "sig", "chg", "lop"}
CONSTANT MaxChunks = 2
CONSTANT Rounds = 2
