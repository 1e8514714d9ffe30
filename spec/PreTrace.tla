----------------------------- MODULE PreTrace -----------------------------
EXTENDS WixPre, TraceRun
=============================================================================
