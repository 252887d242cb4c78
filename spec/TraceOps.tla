------------------------------ MODULE TraceOps ------------------------------
EXTENDS TraceOpsDef, TraceBase
=============================================================================
