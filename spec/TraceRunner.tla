------------------------------ MODULE TraceRunner ------------------------------
EXTENDS Runner, TraceSpec
=============================================================================
