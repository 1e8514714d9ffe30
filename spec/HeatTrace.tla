----------------------------- MODULE HeatTrace -----------------------------
EXTENDS WixHeat, TraceRun
=============================================================================
