INIT Init
NEXT Next
CONSTANT N = 5
INVARIANTS Inside Once Fills
