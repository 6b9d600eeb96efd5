-------------------------------- MODULE TFields --------------------------------
(* Histories of Modes and Grid objects.                                        *)
EXTENDS FieldApi, Replay
===============================================================================
