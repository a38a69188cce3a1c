SPECIFICATION Spec
CONSTANT MaxSize = 3
INVARIANTS InStep SizeOk
CHECK_DEADLOCK FALSE
