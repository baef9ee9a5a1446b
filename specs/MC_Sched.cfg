SPECIFICATION Spec
VIEW View
CONSTANT Mut = "none"
CONSTANT MaxOps = 8
CONSTANT MaxQ = 3
CONSTANT MaxNow = 6
CONSTANT MaxTimers = 1
CONSTANT Dump = FALSE
INVARIANTS Accepted OneLoop Stop
PROPERTY NoPollWhenStopped
ACTION_CONSTRAINT Emit
