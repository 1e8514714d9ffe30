----------------------------- MODULE ToolTrace -----------------------------
EXTENDS MsiTool, TraceRun
=============================================================================
