CONSTANTS
  Obj <- TObj
  Model <- TModel
  ZOf <- TZ
  UOf <- TU
SPECIFICATION TraceSpec
CHECK_DEADLOCK FALSE
VIEW TraceView
