---------------------------- MODULE Identifiers -----------------------------
(* Every string over an alphabet with representatives of all character classes, *)
(* up to a length, and listed longer ones; each is emitted with the identifier   *)
(* types which it belongs to.                                                    *)
EXTENDS Names, Json, IOUtils, TLC
In == JsonDeserialize(IOEnv.NAMES)      \* [alphabets: [chars, max], texts]
VARIABLES str, abc                       \* abc: the alphabet in use, 0 for a listed text
vars == <<str, abc>>
Init == \/ str = <<>> /\ abc \in 1..Len(In.alphabets)
        \/ str \in { In.texts[i] : i \in 1..Len(In.texts) } /\ abc = 0
Next == /\ abc # 0
        /\ Len(str) < In.alphabets[abc].max
        /\ \E i \in 1..Len(In.alphabets[abc].chars) : str' = Append(str, In.alphabets[abc].chars[i])
        /\ UNCHANGED abc
Spec == Init /\ [][Next]_vars

B(b) == IF b THEN 1 ELSE 0
Row == <<B(IsCurrency(str)), B(IsTagOrLink(str)), B(IsTagOrLink(str)), B(IsKey(str)), B(IsTypeName(str)),
         B(IsAccName(str)), B(IsSubaccount(str)), B(IsFlagLetter(str))>>
\* relations between the languages
LawInclusions ==
  /\ IsFlagLetter(str) => IsCurrency(str) /\ IsTypeName(str)
  /\ IsTypeName(str) => IsAccName(str)
  /\ IsAccName(str) => IsSubaccount(str) /\ 58 \notin {str[i] : i \in 1..Len(str)}
  /\ IsKey(str) => ~IsTypeName(str) /\ ~IsCurrency(str)
  /\ IsSubaccount(str) /\ 58 \notin {str[i] : i \in 1..Len(str)} => IsAccName(str)
\* joining two subaccounts gives a subaccount; parts of one are account names
LawJoin == IsSubaccount(str) => IsSubaccount(str \o <<58>> \o str) /\ ~IsSubaccount(str \o <<58>>) /\ ~IsSubaccount(<<58>> \o str)
Emit == PrintT("@@- " \o ToJson([s |-> str, r |-> Row]))
=============================================================================
