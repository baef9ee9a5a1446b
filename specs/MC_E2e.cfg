SPECIFICATION Spec
VIEW View
CONSTANT Mut = "none"
CONSTANT MaxReq = 3
CONSTANT MaxOps = 5
CONSTANT Dump = FALSE
INVARIANTS Accepted Once Done
ACTION_CONSTRAINT Emit
