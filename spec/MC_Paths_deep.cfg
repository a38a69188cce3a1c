SPECIFICATION Spec
CONSTANT N = 5
INVARIANTS Right Agree Symmetric NoLonger
PROPERTY Ends
CHECK_DEADLOCK FALSE
