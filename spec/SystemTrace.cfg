SPECIFICATION TraceSpec
CONSTANT InitSt <- SysInit
CONSTANT Judge <- SysJudge
CHECK_DEADLOCK FALSE
