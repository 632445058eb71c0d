SPECIFICATION Spec
CONSTANT Sizes <- SmallSizes
INVARIANTS Carved Result Pending
PROPERTIES Ends
