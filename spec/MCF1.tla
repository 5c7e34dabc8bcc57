---- MODULE MCF1 ----
EXTENDS MCFetch
G54 == <<5, 4>>
G9 == <<9>>
G1 == <<1, 1, 3>>
G43 == <<4, 3>>
G7 == <<7>>
G0 == <<1, 4, 2>>
G664 == <<6, 3, 4>>
====
