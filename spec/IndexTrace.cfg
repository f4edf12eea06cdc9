SPECIFICATION TraceSpec
CONSTANT InitSt <- IdxInit
CONSTANT Judge <- IdxJudge
CHECK_DEADLOCK FALSE
