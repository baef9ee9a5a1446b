SPECIFICATION Spec
VIEW View
CONSTANT Tabs = {"co", "hr"}
CONSTANT Addrs = {0, 65534, 65535}
CONSTANT Dump = FALSE
CONSTANT MaxLen = 2
INVARIANT Bounded
PROPERTIES D01 D02 D03
ACTION_CONSTRAINT Emit
