SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS NMax = 7 HMax = 12 Nodes = 7
INVARIANTS Sensible OnlyForward Prompt Asking Answered
PROPERTIES Shrinks Stops Again
