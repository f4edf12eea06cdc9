SPECIFICATION TraceSpec
CONSTANT InitSt <- KwpInit
CONSTANT Judge <- KwpJudge
CHECK_DEADLOCK FALSE
