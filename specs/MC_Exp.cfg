SPECIFICATION Spec
VIEW View
CONSTANT NS = 2
CONSTANT XKinds = {"conn", "modbus", "std", "deep", "int", "invarg", "modsub"}
CONSTANT Dump = FALSE
INVARIANT ValueXorError
PROPERTIES Local CopyEqual
ACTION_CONSTRAINT Emit
