------------------------------ MODULE Compose ------------------------------
(* Ledgers composed from a menu of text fragments.  A menu is a sequence of     *)
(* slots, each of which contributes one of its alternatives to one of the       *)
(* files.  All compositions are explored, or those listed in Menu.picks.        *)
EXTENDS Laws, Json, IOUtils
Menu == JsonDeserialize(IOEnv.MENU)      \* [base, root, files, slots: [f, alts], picks]
NSlots == Len(Menu.slots)
RECURSIVE AllPicks(_)
AllPicks(n) == IF n = 0 THEN {<<>>}
               ELSE { Append(p, d) : p \in AllPicks(n - 1), d \in 1..Len(Menu.slots[n].alts) }
Picks == IF Menu.picks = <<>> THEN AllPicks(NSlots) ELSE { Menu.picks[i] : i \in 1..Len(Menu.picks) }
\* the texts of the files under picks n; file 0 is the inline text
TextsOf(n) == [ f \in 0..Len(Menu.files) |->
                FoldLeft(LAMBDA acc, i : IF Menu.slots[i].f = f THEN acc \o Menu.slots[i].alts[n[i]] ELSE acc,
                         <<>>, [ i \in 1..NSlots |-> i ]) ]
ComposedWorld(s) ==
  [base |-> Menu.base, root |-> Menu.root, inline |-> s[0],
   files |-> [ f \in 1..Len(Menu.files) |-> IF Menu.files[f].k = "text" THEN [Menu.files[f] EXCEPT !.t = s[f]] ELSE Menu.files[f] ]]
Init == /\ sc \in { TextsOf(p) : p \in Picks }
        /\ srcs = <<RootSrc(ComposedWorld(sc))>>
        /\ LedgerInit
Next == LedgerNext
Spec == Init /\ [][Next]_vars
Emit == phase = "done" => PrintT("@@- " \o ToJson([texts |-> [ f \in 1..Len(Menu.files) + 1 |-> sc[f - 1] ], exp |-> Expected]))
=============================================================================
