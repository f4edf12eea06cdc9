SPECIFICATION TraceSpec
CONSTANT InitSt <- LogInit
CONSTANT Judge <- LogJudge
CHECK_DEADLOCK FALSE
