SPECIFICATION Spec
VIEW View
CONSTANT Mut = "none"
CONSTANT Max = 2
CONSTANT MaxPeers = 4
CONSTANT MaxOps = 6
CONSTANT Dump = FALSE
INVARIANTS Accepted Limit Serves Tidy Closed Newest
ACTION_CONSTRAINT Emit
