SPECIFICATION Spec
CONSTANT Sizes <- LargeSizes
INVARIANTS Carved Result Pending
PROPERTIES Ends
