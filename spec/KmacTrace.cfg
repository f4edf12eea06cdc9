SPECIFICATION TraceSpec
CONSTANT InitSt <- KmInit
CONSTANT Judge <- KmJudge
CHECK_DEADLOCK FALSE
