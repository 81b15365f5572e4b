------------------------------- MODULE MCPlan -------------------------------
EXTENDS Plan, TLC, Json, IOUtils

CONSTANTS UIDs
VARIABLES st, last, script

\* resources that differ from the first in one respect each
Shapes == {<<"g", "v", "k", "n">>, <<"h", "v", "k", "n">>, <<"g", "w", "k", "n">>, <<"g", "v", "j", "n">>, <<"g", "v", "k", "m">>, <<"", "", "", "">>}
Rs  == {[u |-> u, g |-> s[1], v |-> s[2], k |-> s[3], n |-> s[4]] : u \in UIDs, s \in Shapes}
Ops == {[o |-> "add", r |-> r] : r \in Rs}
       \cup {[o |-> o, u |-> u] : o \in {"get", "del"}, u \in UIDs}
       \cup {[o |-> "getall"]}

Init == st = {} /\ last = [op |-> [o |-> "init"], pre |-> {}] /\ script = <<>>
Next == \E op \in Ops : /\ st' = Effect(st, op)
                        /\ last' = [op |-> op, pre |-> st]
                        /\ script' = Append(script, op)
View == st
Emit == PrintT("S " \o ToJson(script'))

OnePerUID  == \A x, y \in st : x.u = y.u => x = y
AddSticks  == [][last'.op.o = "add" =>
                  /\ last'.op.r \in st'
                  /\ \A x \in st : x.u # last'.op.r.u => x \in st']_<<st, last, script>>
DelExact   == [][last'.op.o = "del" =>
                  /\ At(st', last'.op.u) = {}
                  /\ \A x \in st : x.u # last'.op.u => x \in st']_<<st, last, script>>
=============================================================================
