SPECIFICATION TraceSpec
CONSTANT InitSt <- LinInit
CONSTANT Judge <- LinJudge
CHECK_DEADLOCK FALSE
