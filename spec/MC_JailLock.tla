----------------------------- MODULE MC_JailLock -----------------------------
EXTENDS JailLock
=============================================================================
