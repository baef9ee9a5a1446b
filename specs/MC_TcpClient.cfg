SPECIFICATION Spec
VIEW View
CONSTANT Mut = "none"
CONSTANT MaxReq = 3
CONSTANT MaxOps = 5
CONSTANT MaxEnv = 2
CONSTANT Dump = FALSE
INVARIANTS Accepted Once OneSocket Known NoLimbo Gone
ACTION_CONSTRAINT Emit
