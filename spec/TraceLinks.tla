----------------------------- MODULE TraceLinks -----------------------------
EXTENDS Links, TraceSpec
=============================================================================
