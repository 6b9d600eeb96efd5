--------------------------------- MODULE TConv ---------------------------------
EXTENDS ConvApi, Replay
================================================================================
