-------------------------------- MODULE MCLib --------------------------------
EXTENDS Lib
===============================================================================
