SPECIFICATION Spec
VIEW View
CONSTANT Mut = "none"
CONSTANT MaxOps = 9
CONSTANT MaxQ = 2
CONSTANT MaxFrames = 2
CONSTANT Dump = FALSE
INVARIANTS Accepted AtMostOne ShutOnce
PROPERTY Silence
ACTION_CONSTRAINT Emit
