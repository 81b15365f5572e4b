----------------------------- MODULE TraceGraph -----------------------------
EXTENDS Graph, TraceSpec
=============================================================================
