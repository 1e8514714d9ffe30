------------------------------ MODULE StgTrace ------------------------------
EXTENDS MsiStg, TraceRun
=============================================================================
