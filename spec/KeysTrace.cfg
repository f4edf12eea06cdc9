SPECIFICATION TraceSpec
CONSTANT InitSt <- KeysInit
CONSTANT Judge <- KeysJudge
CHECK_DEADLOCK FALSE
