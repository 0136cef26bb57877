--------------------------- MODULE LueHandlesTrace ---------------------------
EXTENDS LueHandles, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES l, st
INSTANCE Replay
=============================================================================
