------------------------------- MODULE MCLimits -------------------------------
EXTENDS Limits
===============================================================================
