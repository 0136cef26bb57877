--------------------------- MODULE LueRunsTrace ---------------------------
EXTENDS LueRuns, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES l, st
INSTANCE Replay
=============================================================================
