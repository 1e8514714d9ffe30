----------------------------- MODULE UiTrace ------------------------------
EXTENDS WixUi, TraceRun
=============================================================================
