----------------------------- MODULE MCConsole -----------------------------
(* Executes the operations in the file named by the JOBS environment variable. *)
EXTENDS Console
=============================================================================
