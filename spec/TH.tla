---------------------------------- MODULE TH ----------------------------------
EXTENDS HApi, Replay
===============================================================================
