---------------------------- MODULE ExtractTrace ----------------------------
EXTENDS MsiExtract, TraceRun
=============================================================================
