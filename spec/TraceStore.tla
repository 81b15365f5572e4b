----------------------------- MODULE TraceStore -----------------------------
EXTENDS Store, TraceSpec
=============================================================================
