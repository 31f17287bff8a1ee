SPECIFICATION Spec
INVARIANTS Kept Complete Valid
PROPERTIES Stable StaysAccepted Decided
CHECK_DEADLOCK FALSE
