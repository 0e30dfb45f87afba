------------------------------ MODULE XsHomTrace ----------------------------
EXTENDS XsMeshTrace
=============================================================================
