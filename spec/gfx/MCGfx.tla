------------------------------- MODULE MCGfx -------------------------------
(* Draws the shapes in the file named by the JOBS environment variable. *)
EXTENDS Gfx
=============================================================================
