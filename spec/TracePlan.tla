------------------------------ MODULE TracePlan ------------------------------
EXTENDS Plan, TraceSpec
=============================================================================
