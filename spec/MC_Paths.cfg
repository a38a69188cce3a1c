SPECIFICATION Spec
CONSTANT N = 4
INVARIANTS Right Agree Symmetric NoLonger
PROPERTY Ends
CHECK_DEADLOCK FALSE
