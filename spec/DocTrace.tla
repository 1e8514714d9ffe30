----------------------------- MODULE DocTrace -----------------------------
EXTENDS WixDoc, TraceRun
=============================================================================
