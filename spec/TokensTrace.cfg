SPECIFICATION TraceSpec
CONSTANT InitSt <- TokInit
CONSTANT Judge <- TokJudge
CHECK_DEADLOCK FALSE
