SPECIFICATION TSpec
INVARIANT Accepted StepProps
CHECK_DEADLOCK FALSE
