SPECIFICATION TSpec
CONSTANT Stream <- TStream
CONSTANT Mode <- TMode
CONSTANT Fault <- TFault
CHECK_DEADLOCK FALSE
