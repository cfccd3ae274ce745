SPECIFICATION SpecS
CHECK_DEADLOCK FALSE
