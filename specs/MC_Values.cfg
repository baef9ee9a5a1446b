SPECIFICATION Spec
VIEW View
CONSTANT NL = 2
CONSTANT Dump = FALSE
INVARIANT Filter
PROPERTIES Frame
ACTION_CONSTRAINT Emit
