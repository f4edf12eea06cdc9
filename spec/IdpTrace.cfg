SPECIFICATION TraceSpec
CONSTANT InitSt <- IdpInit
CONSTANT Judge <- IdpJudge
CHECK_DEADLOCK FALSE
