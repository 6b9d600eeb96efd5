-------------------------------- MODULE TThreeJ --------------------------------
EXTENDS ThreeJApi, Replay
================================================================================
