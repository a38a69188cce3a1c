SPECIFICATION Spec
CONSTANTS MaxLen = 3
 Scenarios <- Given
INVARIANTS TypeOk StoreConsistent Live Depth
PROPERTIES FramesBelowKept FreshCallee DataGrows FindKeepsData OutcomeFinal CleanStart FailOnlyByAssertion OnlyNewGrows Ends
CHECK_DEADLOCK FALSE
