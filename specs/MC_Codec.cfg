SPECIFICATION Spec
CONSTANT MaxN = 9
INVARIANTS RoundTrip Framed Answers Cuts
