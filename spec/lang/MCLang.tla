------------------------------- MODULE MCLang -------------------------------
(* Interprets the programs in the file named by the PROGS environment variable. *)
EXTENDS Lang
=============================================================================
