SPECIFICATION Spec
CONSTANT UseLock = TRUE
CONSTANT Programs = 2
INVARIANTS D04 Final
