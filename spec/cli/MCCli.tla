-------------------------------- MODULE MCCli -------------------------------
EXTENDS Cli
=============================================================================
