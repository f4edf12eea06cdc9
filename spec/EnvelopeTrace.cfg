SPECIFICATION TraceSpec
CONSTANT InitSt <- EnvInit
CONSTANT Judge <- EnvJudge
CHECK_DEADLOCK FALSE
