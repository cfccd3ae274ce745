SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS Sound NeverStuck UpDown DownUp Cancelled Found Listed Taken KillYank Limited
PROPERTIES MovesOnly KillsOnly KeepsKill Submits Recorded
