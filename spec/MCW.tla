-------------------------------- MODULE MCW --------------------------------
\* constants for the configurations of Worker
EXTENDS Worker
Keys1  == <<1>>
Keys12 == <<1, 2>>
Keys123 == <<1, 2, 3>>
=============================================================================
