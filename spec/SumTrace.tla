------------------------------ MODULE SumTrace ------------------------------
EXTENDS MsiSum, TraceRun
=============================================================================
