------------------------------- MODULE Lexer -------------------------------
(* From text to logical lines of tokens.  A token is a record                  *)
(*   k  kind: "kw" (v the keyword), "date", "num", "cur", "acc", "str", "tag",  *)
(*      "link", "key", "flag", "TRUE", "FALSE", "NULL", "eol", "err", or the    *)
(*      punctuation itself                                                      *)
(*   s, e  byte offsets of its start and end;   l, m  first and last line       *)
(*   v  its value                                                               *)
(* The longest match wins.  Only indentation is significant white space.        *)
EXTENDS Strings, Big

Keywords == {"txn", "balance", "open", "close", "commodity", "pad", "event", "query", "custom", "price",
             "note", "document", "pushtag", "poptag", "pushmeta", "popmeta", "option", "options", "plugin", "include"}
KwCode == [ w \in Keywords |-> C(w) ]
KwOf(cs) == { w \in Keywords : KwCode[w] = cs }
TRUEc == C("TRUE")
FALSEc == C("FALSE")
NULLc == C("NULL")
Punct == [ c \in Chs("|,~+-()*:@{}/#") |->
            CASE c = 124 -> "|" [] c = 44 -> "," [] c = 126 -> "~" [] c = 43 -> "+" [] c = 45 -> "-" [] c = 40 -> "("
              [] c = 41 -> ")" [] c = 42 -> "*" [] c = 58 -> ":" [] c = 64 -> "@" [] c = 123 -> "{" [] c = 125 -> "}"
              [] c = 47 -> "/" [] OTHER -> "#" ]
FlagCh == Chs("!&?%")

-----------------------------------------------------------------------------
\* scalars
TwoDigits(t, i) == (t[i] - 48) * 10 + (t[i + 1] - 48)
DateAt(t, i) == /\ i + 9 <= Len(t)
                /\ \A k \in {0, 1, 2, 3, 5, 6, 8, 9} : t[i + k] \in Digit
                /\ t[i + 4] \in {45, 47} /\ t[i + 7] \in {45, 47}
IsLeap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
DaysIn(y, m) == IF m \in {4, 6, 9, 11} THEN 30 ELSE IF m = 2 THEN (IF IsLeap(y) THEN 29 ELSE 28) ELSE 31
DateVal(t, i) == LET y == TwoDigits(t, i) * 100 + TwoDigits(t, i + 2)
                     m == TwoDigits(t, i + 5)
                     d == TwoDigits(t, i + 8)
                 IN IF m \in 1..12 /\ d >= 1 /\ d <= DaysIn(y, m)
                    THEN [ok |-> TRUE, v |-> y * 10000 + m * 100 + d] ELSE [ok |-> FALSE]

\* end of [0-9]+(,[0-9]{3})*(\.[0-9]+)? starting at i
RECURSIVE Groups(_, _)
Groups(t, i) == IF i + 3 <= Len(t) /\ t[i] = 44 /\ t[i + 1] \in Digit /\ t[i + 2] \in Digit /\ t[i + 3] \in Digit
                THEN Groups(t, i + 4) ELSE i
NumEnd(t, i) == LET a == Groups(t, Span1(t, i, DigitS))
                IN IF a + 1 <= Len(t) /\ t[a] = 46 /\ t[a + 1] \in Digit THEN Span1(t, a + 1, DigitS) ELSE a
NumVal(cs) == LET p  == Find(cs, 1, 46)
                  ds == SelectSeq(cs, LAMBDA c : c \in Digit)
                  sc == IF p = 0 THEN 0 ELSE Len(cs) - p
                  m  == FromDigits(ds)
              IN [ok |-> sc <= MaxScale /\ Cmp(m, TwoTo96) < 0, v |-> [m |-> m, s |-> sc]]
TimeEnd(t, i) == LET a == Span1(t, i, DigitS)
                     b == a + 3
                 IN IF a - i \in {1, 2} /\ a + 2 <= Len(t) /\ t[a] = 58 /\ t[a + 1] \in Digit /\ t[a + 2] \in Digit
                    THEN (IF b + 2 <= Len(t) /\ t[b] = 58 /\ t[b + 1] \in Digit /\ t[b + 2] \in Digit THEN b + 3 ELSE b)
                    ELSE 0

\* end of account_type(:account_name)+ starting at i, 0 if there is none
RECURSIVE Names(_, _)
Names(t, i) == IF i + 1 <= Len(t) /\ t[i] = 58 /\ t[i + 1] \in NameFirst THEN Names(t, Span1(t, i + 2, AccRest)) ELSE i
AccEnd(t, i) == IF t[i] \notin AccFirst THEN 0
                ELSE LET a == Span1(t, i + 1, AccRest)
                         b == Names(t, a)
                     IN IF b = a THEN 0 ELSE b
\* end of a currency starting at i, 0 if there is none
CurEnd(t, i) == IF t[i] \in Upper THEN Span1(t, i + 1, CurRest)
                ELSE IF t[i] = 47 THEN LET a == Span1(t, i + 1, SlashRest)
                                       IN IF a <= Len(t) /\ t[a] \in Upper THEN Span1(t, a + 1, CurRest) ELSE 0
                ELSE 0
CurrencyOk(cs) == Len(cs) > 0 /\ cs[Len(cs)] \in (UpperS \cup DigitS)

-----------------------------------------------------------------------------
\* one token at index i (not at a blank): kind, value, index after it
Tok(k, v, j) == [k |-> k, v |-> v, j |-> j, ind |-> FALSE]

\* after a newline: skip whole ignored lines, then the indentation
RECURSIVE SkipIgnored(_, _)
SkipIgnored(t, i) == IF i <= Len(t) /\ t[i] \in IgnFirst
                     THEN (LET n == Find(t, i, NL) IN IF n = 0 THEN Len(t) + 1 ELSE SkipIgnored(t, n + 1)) ELSE i
EolTok(t, nl) == LET a == SkipIgnored(t, nl + 1)
                     b == Span1(t, a, Blank)
                 IN [k |-> "eol", v |-> <<>>, j |-> b, ind |-> b > a]

LowerTok(t, i) == LET j  == Span1(t, i + 1, KeyRest)
                      cs == SubSeq(t, i, j - 1)
                      kw == KwOf(cs)
                  IN IF j = i + 1 THEN Tok("err", <<>>, j)
                     ELSE IF kw # {} THEN Tok("kw", CHOOSE w \in kw : TRUE, j)
                     ELSE Tok("key", cs, j)

UpperTok(t, i) == LET a == AccEnd(t, i)
                      c == CurEnd(t, i)
                      cs == SubSeq(t, i, c - 1)
                  IN IF a > c THEN Tok("acc", SubSeq(t, i, a - 1), a)
                     ELSE IF c = 0 THEN Tok("err", <<>>, i + 1)
                     ELSE IF cs = TRUEc THEN Tok("TRUE", <<>>, c)
                     ELSE IF cs = FALSEc THEN Tok("FALSE", <<>>, c)
                     ELSE IF cs = NULLc THEN Tok("NULL", <<>>, c)
                     ELSE IF CurrencyOk(cs) THEN Tok("cur", cs, c) ELSE Tok("err", <<>>, c)

DigitTok(t, i) == IF DateAt(t, i) /\ NumEnd(t, i) <= i + 9
                  THEN (LET d == DateVal(t, i) IN IF d.ok THEN Tok("date", d.v, i + 10) ELSE Tok("err", <<>>, i + 10))
                  ELSE LET n == NumEnd(t, i)
                           h == TimeEnd(t, i)
                           v == NumVal(SubSeq(t, i, n - 1))
                       IN IF h > n THEN Tok("time", <<>>, h)
                          ELSE IF v.ok THEN Tok("num", v.v, n) ELSE Tok("err", <<>>, n)

TokenAt(t, i) ==
  LET c == t[i]
      two == IF i < Len(t) THEN t[i + 1] ELSE 0
  IN
  IF c = NL THEN EolTok(t, i)
  ELSE IF c = CR /\ two = NL THEN EolTok(t, i + 1)
  ELSE IF c = 59 THEN LET n == Find(t, i, NL)
                      IN IF n = 0 THEN [k |-> "eol", v |-> <<>>, j |-> Len(t) + 1, ind |-> FALSE] ELSE EolTok(t, n)
  ELSE IF c \in Lower THEN LowerTok(t, i)
  ELSE IF c \in Digit THEN DigitTok(t, i)
  ELSE IF c \in AccFirst THEN UpperTok(t, i)
  ELSE IF c = Quote THEN
    LET q == StrEnd(t, i + 1)
        u == Unescape(SubSeq(t, i + 1, q - 1))
    IN IF q = 0 THEN Tok("err", <<0>>, Len(t) + 1)         \* never closed
       ELSE IF u.ok THEN Tok("str", u.v, q + 1) ELSE Tok("err", <<>>, q + 1)
  ELSE IF c \in {35, 94} /\ two \in TagCh THEN
    LET j == Span1(t, i + 1, TagCh) IN Tok(IF c = 35 THEN "tag" ELSE "link", SubSeq(t, i + 1, j - 1), j)
  ELSE IF c = 39 /\ two \in Upper THEN Tok("flag", <<two>>, i + 2)
  ELSE IF c \in FlagCh THEN Tok("flag", <<c>>, i + 1)
  ELSE IF c = 47 /\ CurEnd(t, i) # 0 THEN
    LET j == CurEnd(t, i)
        cs == SubSeq(t, i, j - 1)
    IN IF CurrencyOk(cs) THEN Tok("cur", cs, j) ELSE Tok("err", <<>>, j)
  ELSE IF c = 64 /\ two = 64 THEN Tok("@@", <<>>, i + 2)
  ELSE IF c = 123 /\ two = 123 THEN Tok("{{", <<>>, i + 2)
  ELSE IF c = 125 /\ two = 125 THEN Tok("}}", <<>>, i + 2)
  ELSE IF c \in DOMAIN Punct THEN Tok(Punct[c], <<>>, i + 1)
  ELSE Tok("err", <<>>, i + 1)

\* all tokens; b is the byte offset and l the line of index i
RECURSIVE BytesOf(_, _, _, _)
BytesOf(t, i, j, acc) == IF i >= j THEN acc ELSE BytesOf(t, i + 1, j, acc + Width(t[i]))
RECURSIVE NlIn(_, _, _, _)
NlIn(t, i, j, acc) == IF i >= j THEN acc ELSE NlIn(t, i + 1, j, IF t[i] = NL THEN acc + 1 ELSE acc)
\* a is the state after index i - 1: the index of the next token (or blank), its byte offset and line, the tokens so far
LexStep(t, a, i) ==
  IF i < a.i THEN a
  ELSE IF t[i] \in Blank THEN [a EXCEPT !.i = i + 1, !.b = @ + 1]
  ELSE LET x == TokenAt(t, i)
           e == BytesOf(t, i, x.j, a.b)
           m == NlIn(t, i, x.j, a.l)
       IN [i |-> x.j, b |-> e, l |-> m,
           ts |-> Append(a.ts, [k |-> x.k, v |-> x.v, ind |-> x.ind, s |-> a.b, e |-> e, l |-> a.l, m |-> m])]
LexFrom(t, i, b, l) == FoldLeft(LAMBDA a, j : LexStep(t, a, j), [i |-> i, b |-> b, l |-> l, ts |-> <<>>],
                                [ j \in 1..Len(t) |-> j ]).ts

\* a keyword followed by a colon is a key
KeysFixed(ts) == [ i \in 1..Len(ts) |->
                    IF ts[i].k = "kw" /\ i < Len(ts) /\ ts[i + 1].k = ":"
                    THEN [ts[i] EXCEPT !.k = "key", !.v = KwCode[ts[i].v]] ELSE ts[i] ]
\* lines ignored at the very start of the text
Lead(t) == SkipIgnored(t, 1)
RawTokens(t) == LET i == Lead(t)
                IN KeysFixed(LexFrom(t, i, BytesOf(t, 1, i, 0), NlIn(t, 1, i, 1)))

-----------------------------------------------------------------------------
\* Logical lines: [ind |-> indented?, ts |-> tokens].  Lines without tokens vanish, and so do
\* lines whose first token is a colon; the first remaining line counts as not indented.
PutTok(ls, x, ind) == IF ls.cur = <<>> THEN [ls EXCEPT !.cur = <<x>>, !.ind = ind]
                      ELSE [ls EXCEPT !.cur = Append(@, x)]
Flush(ls) == IF ls.cur = <<>> \/ ls.cur[1].k = ":" THEN [ls EXCEPT !.cur = <<>>]
             ELSE [ls EXCEPT !.cur = <<>>, !.done = Append(@, [ind |-> ls.ind /\ ls.done # <<>>, ts |-> ls.cur])]
LineStep(ls, x) == IF x.k = "eol" THEN [Flush(ls) EXCEPT !.next = x.ind] ELSE PutTok(ls, x, ls.next)
Lines(ts) == Flush(FoldLeft(LineStep, [done |-> <<>>, cur |-> <<>>, ind |-> FALSE, next |-> FALSE], ts)).done

\* Blocks: an unindented line with the indented lines following it
Blocks(lines) == FoldLeft(LAMBDA bs, ln : IF ln.ind /\ bs # <<>> THEN [bs EXCEPT ![Len(bs)] = Append(@, ln.ts)]
                                          ELSE Append(bs, <<ln.ts>>), <<>>, lines)
Lex(t) == Blocks(Lines(RawTokens(t)))
=============================================================================
