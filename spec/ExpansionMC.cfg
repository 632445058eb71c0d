SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS NMax = 4 HMax = 6 Nodes = 5
INVARIANTS Sensible OnlyForward Prompt Asking Answered
PROPERTIES Shrinks Stops Again
