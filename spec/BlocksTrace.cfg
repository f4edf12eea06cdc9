SPECIFICATION TraceSpec
CONSTANT InitSt <- BlInit
CONSTANT Judge <- BlJudge
CHECK_DEADLOCK FALSE
