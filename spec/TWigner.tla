-------------------------------- MODULE TWigner --------------------------------
(* Histories of Wigner_D_element, Wigner_D_matrices, SWSH, SWSH_grid.          *)
EXTENDS WignerApi, Replay
===============================================================================
