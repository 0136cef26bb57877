--------------------------- MODULE LueIndexingTrace ---------------------------
EXTENDS LueIndexing, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES l, st
INSTANCE Replay
=============================================================================
