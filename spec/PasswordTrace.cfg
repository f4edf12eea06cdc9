SPECIFICATION TraceSpec
CONSTANT InitSt <- PwInit
CONSTANT Judge <- PwJudge
CHECK_DEADLOCK FALSE
