---- MODULE MCR1 ----
EXTENDS MCCrl
Two == ("a" :> <<"u1", "u2">>) @@ ("b" :> <<"u3">>)
One == ("a" :> <<"u1", "u2">>)
Shared == ("a" :> <<"u1">>) @@ ("b" :> <<"u2">>)
Lone == ("a" :> <<"u1">>)
====
