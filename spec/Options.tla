------------------------------ MODULE Options ------------------------------
(* Options: which values are acceptable, and how they accumulate.              *)
EXTENDS Grammar, Names

TypeOptions == <<C("name_assets"), C("name_liabilities"), C("name_equity"), C("name_income"), C("name_expenses")>>
SubaccountOptions == {"account_previous_balances", "account_previous_earnings", "account_previous_conversions",
                      "account_current_earnings", "account_current_conversions", "account_unrealized_gains", "account_rounding"}
SingleOptions == SubaccountOptions \cup {"title", "conversion_currency", "inferred_tolerance_multiplier",
                      "infer_tolerance_from_cost", "render_commas", "booking_method", "plugin_processing_mode"}
MultiOptions == {"inferred_tolerance_default", "documents", "operating_currency"}
OptNames == SingleOptions \cup MultiOptions \cup {"long_string_maxlines"}
OptCode == [ w \in OptNames |-> C(w) ]

\* a decimal: sign? digits with at most one point
DecVal(cs) ==
  LET sg == cs # <<>> /\ cs[1] \in {43, 45}
      b == IF sg THEN Tail(cs) ELSE cs
      p == Find(b, 1, 46)
      ds == SelectSeq(b, LAMBDA c : c \in Digit)
      shape == ds # <<>> /\ Len(b) - Len(ds) = (IF p = 0 THEN 0 ELSE 1)
      sc == IF p = 0 THEN 0 ELSE Len(b) - p
      m == FromDigits(ds)
  IN [ok |-> shape /\ sc <= MaxScale /\ Cmp(m, TwoTo96) < 0, v |-> DecOf(sg /\ cs[1] = 45, m, sc)]
BoolVal(cs) == LET l == ToLower(cs) IN IF l = C("true") THEN [ok |-> TRUE, v |-> TRUE]
                                       ELSE IF l = C("false") THEN [ok |-> TRUE, v |-> FALSE] ELSE [ok |-> FALSE]
Bool01(cs) == IF cs = <<49>> THEN [ok |-> TRUE, v |-> TRUE] ELSE IF cs = <<48>> THEN [ok |-> TRUE, v |-> FALSE] ELSE BoolVal(cs)
IntVal(cs) == LET b == IF cs # <<>> /\ cs[1] = 43 THEN Tail(cs) ELSE cs
              IN IF b # <<>> /\ Len(b) <= 9 /\ All(b, 1, DigitS)
                 THEN [ok |-> TRUE, v |-> FoldLeft(LAMBDA n, c : n * 10 + (c - 48), 0, b)] ELSE [ok |-> FALSE]
ModeVal(cs) == IF cs \in {C("DEFAULT"), C("RAW")} THEN [ok |-> TRUE, v |-> Str(cs)] ELSE [ok |-> FALSE]
StrIf(cond, cs) == IF cond THEN [ok |-> TRUE, v |-> Str(cs)] ELSE [ok |-> FALSE]
TolVal(cs) == LET f == Split(cs, 58)
                  d == DecVal(f[2])
              IN IF Len(f) = 2 /\ (f[1] = <<42>> \/ IsCurrency(f[1])) /\ d.ok
                 THEN [ok |-> TRUE, v |-> <<Str(f[1]), d.v>>, key |-> f[1]] ELSE [ok |-> FALSE]

\* value of option name w (one of OptNames) written as cs; dir is the directory of its file, <<>> if none
OptVal(w, cs) ==
  CASE w = "title" -> StrIf(TRUE, cs)
    [] w \in SubaccountOptions -> StrIf(IsSubaccount(cs), cs)
    [] w \in {"conversion_currency", "operating_currency"} -> StrIf(IsCurrency(cs), cs)
    [] w = "inferred_tolerance_default" -> TolVal(cs)
    [] w = "inferred_tolerance_multiplier" -> DecVal(cs)
    [] w = "infer_tolerance_from_cost" -> BoolVal(cs)
    [] w = "render_commas" -> Bool01(cs)
    [] w = "documents" -> StrIf(TRUE, cs)
    [] w = "long_string_maxlines" -> IntVal(cs)
    [] w = "booking_method" -> StrIf(IsBooking(cs), cs)
    [] w = "plugin_processing_mode" -> ModeVal(cs)

OptOf(cs) == LET s == { w \in OptNames : OptCode[w] = cs } IN IF s = {} THEN "unknown" ELSE CHOOSE w \in s : TRUE
TypeOptOf(cs) == LET s == { i \in 1..5 : TypeOptions[i] = cs } IN IF s = {} THEN 0 ELSE CHOOSE i \in s : TRUE

\* Effect at parse time on the parser state ps = [names, maxl]:
\* er: errors; eff: what is left to do when the pragma is executed
OptParse(ps, d) ==
  LET ti == TypeOptOf(d.name)
      w == OptOf(d.name)
      v == OptVal(w, d.val)
      bad == [ps |-> ps, er |-> <<ErrAt(<<d.vsp>>, 1)>>, eff |-> "none", v |-> 0]
  IN IF ti # 0 THEN
       IF ~IsTypeName(d.val) \/ (\E j \in 1..5 : j # ti /\ ps.names[j] = d.val) THEN bad
       ELSE [ps |-> [ps EXCEPT !.names[ti] = d.val], er |-> <<>>, eff |-> "none", v |-> 0]
     ELSE IF w = "unknown" THEN [ps |-> ps, er |-> <<ErrAt(<<d.nsp>>, 1)>>, eff |-> "none", v |-> 0]
     ELSE IF ~v.ok THEN bad
     ELSE IF w = "long_string_maxlines" THEN
       [ps |-> [ps EXCEPT !.maxl = <<[n |-> v.v, sp |-> d.vsp]>>], er |-> <<>>, eff |-> "none", v |-> 0]
     ELSE [ps |-> ps, er |-> <<>>, eff |-> w, v |-> v]

\* Effect of executing the pragma on the option values: single-valued ones are [o |-> ..], others sequences
NoOpts == [ w \in SingleOptions |-> None ] @@ [ w \in MultiOptions |-> <<>> ] @@ [first |-> [ w \in SingleOptions |-> <<>> ]]
OptExec(os, w, v, d, dir) ==
  LET key == IF w = "inferred_tolerance_default" THEN v.key ELSE IF w = "documents" THEN dir \o d.val ELSE d.val
      val == IF w = "documents" THEN Str(key) ELSE v.v
  IN IF w = "none" THEN [os |-> os, er |-> <<>>]
     ELSE IF w \in SingleOptions THEN
       IF os[w] = None THEN [os |-> [os EXCEPT ![w] = Some(Leaf(v.v, d.vsp)), !.first[w] = d.nsp], er |-> <<>>]
       ELSE [os |-> os, er |-> <<ErrRel(<<d.nsp>>, 1, <<os.first[w]>>)>>]
     ELSE IF \E i \in 1..Len(os[w]) : os[w][i].key = key
     THEN LET o == os[w][CHOOSE i \in 1..Len(os[w]) : os[w][i].key = key]
          IN [os |-> os, er |-> <<ErrRel(<<d.vsp>>, 1, <<o.at>>)>>]
     ELSE [os |-> [os EXCEPT ![w] = Append(@, [key |-> key, v |-> val, at |-> d.vsp])], er |-> <<>>]
OptsJson(os, ps) ==
  [ w \in SingleOptions |-> os[w] ]
  @@ [ w \in MultiOptions |-> [set |-> [ i \in 1..Len(os[w]) |-> os[w][i].v ]] ]
  @@ [long_string_maxlines |-> IF ps.maxl = <<>> THEN None ELSE Some(Leaf(ps.maxl[1].n, ps.maxl[1].sp)),
      tolerance_lookup_ok |-> TRUE,
      account_type_names |-> [ i \in 1..5 |-> Str(ps.names[i]) ]]
=============================================================================
