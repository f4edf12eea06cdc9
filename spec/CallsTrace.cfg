SPECIFICATION TraceSpec
CONSTANT InitSt <- CallsInit
CONSTANT Judge <- CallsJudge
CHECK_DEADLOCK FALSE
