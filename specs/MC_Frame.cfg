SPECIFICATION Spec
VIEW View
CONSTANT Keep = 260
CONSTANT Mut = "none"
CONSTANT N = 2
CONSTANT Sizes = {1, 3, 7, 8, 260, 600}
CONSTANT Dump = FALSE
INVARIANTS Accepted Whole
ACTION_CONSTRAINT Emit
