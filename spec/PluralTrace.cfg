INIT Init
NEXT Next
CONSTANT Chunk = 50
CHECK_DEADLOCK FALSE
