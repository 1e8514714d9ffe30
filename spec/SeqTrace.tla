----------------------------- MODULE SeqTrace -----------------------------
EXTENDS WixSeq, TraceRun
=============================================================================
