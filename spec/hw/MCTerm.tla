-------------------------------- MODULE MCTerm --------------------------------
(* Judges the recorded sessions in the file named by the JOBS environment variable. *)
EXTENDS Term
===============================================================================
