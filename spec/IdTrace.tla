----------------------------- MODULE IdTrace -----------------------------
EXTENDS WixIds, TraceRun
=============================================================================
