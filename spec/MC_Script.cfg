SPECIFICATION Spec
CONSTANT MaxSize = 2
INVARIANTS InStep SizeOk
CHECK_DEADLOCK FALSE
