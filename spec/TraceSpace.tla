----------------------------- MODULE TraceSpace -----------------------------
EXTENDS Space, TraceSpec
=============================================================================
