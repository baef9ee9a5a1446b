SPECIFICATION Spec
VIEW View
CONSTANT Mut = "none"
CONSTANT NReq = 2
CONSTANT MaxT = 3
CONSTANT MaxOps = 9
CONSTANT MaxQ = 3
CONSTANT Dump = FALSE
INVARIANTS Accepted Once OneAtATime SentOnce InOrder NoneLost TimerArmed NoTimerLeft
PROPERTY Silence
ACTION_CONSTRAINT Emit
