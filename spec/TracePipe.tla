------------------------------ MODULE TracePipe ------------------------------
EXTENDS Pipe, TraceSpec
=============================================================================
