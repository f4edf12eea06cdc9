SPECIFICATION TraceSpec
CONSTANT InitSt <- ObjInit
CONSTANT Judge <- ObjJudge
CHECK_DEADLOCK FALSE
