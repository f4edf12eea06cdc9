SPECIFICATION TraceSpec
CONSTANT InitSt <- SealsInit
CONSTANT Judge <- SealsJudge
CHECK_DEADLOCK FALSE
