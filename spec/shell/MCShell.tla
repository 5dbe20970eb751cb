------------------------------ MODULE MCShell -------------------------------
(* Interprets the sessions in the file named by the SESSIONS environment variable. *)
EXTENDS Shell
=============================================================================
