SPECIFICATION Spec
CONSTANTS
 Loggers = {"debug", "fields", "spare", "info", "disabled", "none", "hook", "child"}
 Idps = {"stub", "standalone"}
 Outcomes = {"ok", "unauth", "scope", "missing", "denied", "fault"}
CHECK_DEADLOCK FALSE
