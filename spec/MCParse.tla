------------------------------ MODULE MCParse -------------------------------
(* Alphabets for GenParse *)
EXTENDS GenParse
T(c) == <<c>>
Q == 34
\* containers and complete small tokens
AlphaStruct == {<<91>>, <<93>>, <<123>>, <<125>>, <<44>>, <<58>>, <<34, 97, 34>>, <<34, 98, 34>>, <<49>>, <<32>>}
\* every character a container scanner could stumble over, strings opened and closed by hand
AlphaScan == {<<91>>, <<93>>, <<123>>, <<125>>, <<44>>, <<58>>, <<34>>, <<92>>, <<49>>, <<32>>}
\* inside a string
AlphaStr == {<<34>>, <<92>>, <<117>>, <<47>>, <<98>>, <<110>>, <<48>>, <<68>>, <<56>>, <<100>>, <<67>>, <<102>>, <<120>>,
             <<31>>, <<127>>, <<233>>, <<128150>>, <<91>>, <<32>>, <<10>>}
AlphaHex == {<<34>>, <<92, 117>>, <<92>>, <<68, 56>>, <<100, 98>>, <<102, 70>>, <<68, 67>>, <<100, 102>>, <<48, 48>>, <<52, 49>>, <<69>>, <<103>>, <<48>>}
AlphaNum == {<<45>>, <<43>>, <<48>>, <<49>>, <<57>>, <<46>>, <<101>>, <<69>>, <<32>>, <<44>>, <<65296>>}
AlphaNumArr == AlphaNum \cup {<<93>>}
AlphaLit == {<<110>>, <<117>>, <<108>>, <<116>>, <<114>>, <<101>>, <<102>>, <<97>>, <<115>>, <<78>>, <<84>>, <<32>>, <<160>>, <<0>>, <<49>>, <<91>>, <<93>>, <<44>>}
\* what is white space and what only looks like it
AlphaWs == {<<32>>, <<9>>, <<10>>, <<13>>, <<11>>, <<12>>, <<133>>, <<160>>, <<8232>>, <<12288>>, <<65279>>, <<0>>, <<110, 117, 108, 108>>,
            <<91>>, <<93>>, <<49>>, <<44>>}
AlphaWsObj == {<<32>>, <<9>>, <<10>>, <<13>>, <<11>>, <<160>>, <<65279>>, <<34, 97, 34>>, <<58>>, <<44>>, <<116, 114, 117, 101>>, <<125>>}
AlphaObj == {<<123>>, <<125>>, <<44>>, <<58>>, <<34, 97, 34>>, <<34, 34>>, <<34, 98, 92, 34, 34>>, <<110, 117, 108, 108>>, <<91, 93>>, <<32>>, <<10>>, <<49>>, <<34>>}
NoPrefix == <<>>
InString == <<34>>
InHigh == <<34, 92, 117, 68, 56, 48, 48>>
InArray == <<91>>
InKey == <<123, 34>>
InObj == <<123>>
InMember == <<123, 34, 97, 34, 58>>
=============================================================================
