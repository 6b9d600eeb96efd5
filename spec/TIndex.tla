-------------------------------- MODULE TIndex --------------------------------
EXTENDS IndexApi, Replay
===============================================================================
