------------------------------ MODULE RecTrace ------------------------------
EXTENDS MsiRec, TraceRun
=============================================================================
