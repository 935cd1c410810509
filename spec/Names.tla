------------------------------- MODULE Names -------------------------------
(* The languages of the identifier types (constructors and option values).     *)
EXTENDS Chars
Alnum == UpperS \cup { i : i \in Lower } \cup DigitS \cup Lu \cup Lo \cup LOther \cup Nx
All(cs, from, S) == \A i \in from..Len(cs) : cs[i] \in S
AlphaNonAscii == Lu \cup Lo \cup LOther \cup {8551}

IsCurrency(cs) == /\ cs # <<>>
                  /\ cs[1] \in UpperS \cup {47}
                  /\ cs[Len(cs)] \in UpperS \cup DigitS
                  /\ \A i \in 2..Len(cs) - 1 : cs[i] \in CurRest
                  /\ \E i \in 1..Len(cs) : cs[i] \in UpperS
IsTagOrLink(cs) == All(cs, 1, Alnum \cup Chs("-_/."))
IsKey(cs) == cs # <<>> /\ cs[1] \in Lower /\ All(cs, 2, Alnum \cup Chs("-_"))
IsTypeName(cs) == cs # <<>> /\ cs[1] \in UpperS /\ All(cs, 2, Alnum \cup {45})
IsAccName(cs) == cs # <<>> /\ cs[1] \in UpperS \cup DigitS \cup AlphaNonAscii /\ All(cs, 2, Alnum \cup {45})
IsSubaccount(cs) == LET f == Split(cs, 58) IN \A i \in 1..Len(f) : IsAccName(f[i])
IsFlagLetter(cs) == Len(cs) = 1 /\ cs[1] \in UpperS
=============================================================================
