SPECIFICATION TraceSpec
CONSTANT InitSt <- KvInit
CONSTANT Judge <- KvJudge
CHECK_DEADLOCK FALSE
