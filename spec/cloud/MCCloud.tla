------------------------------ MODULE MCCloud ------------------------------
EXTENDS Cloud
=============================================================================
