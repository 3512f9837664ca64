------------------------------- MODULE MC_Tags -------------------------------
EXTENDS Tags
=============================================================================
