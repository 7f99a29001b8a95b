------------------------------ MODULE AffFile ------------------------------
(***************************************************************************)
(* The aff file: directives and tables.                                    *)
(*                                                                         *)
(* Flags are texts, sets of flags are sets of texts; a flag which is not   *)
(* declared is the empty text and belongs to no set.                       *)
(***************************************************************************)
EXTENDS Files, Casing

Letters == <<"A","B","C","D","E","F","G","H","I","J","K","L","M",
             "N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
\* the name of a directive as a string; "" if it is not made of capital letters
DirName(t) ==
    IF t # <<>> /\ \A i \in 1..Len(t) : t[i] \in 65..90
    THEN FoldLeft(LAMBDA a, c : a \o Letters[c - 64], "", t) ELSE ""
Synonym(n) == CASE n = "PSEUDOROOT" -> "NEEDAFFIX" [] n = "COMPOUNDLAST" -> "COMPOUNDEND" [] OTHER -> n

TextDirs == {"KEY", "TRY", "WORDCHARS", "LANG"}
IntDirs  == {"MAXDIFF", "MAXNGRAMSUGS", "MAXCPDSUGS", "COMPOUNDMIN", "COMPOUNDWORDMAX"}
FlagDirs == {"NOSUGGEST", "KEEPCASE", "CIRCUMFIX", "NEEDAFFIX", "FORBIDDENWORD", "WARN",
             "COMPOUNDFLAG", "COMPOUNDBEGIN", "COMPOUNDMIDDLE", "COMPOUNDEND", "ONLYINCOMPOUND",
             "COMPOUNDPERMITFLAG", "COMPOUNDFORBIDFLAG", "FORCEUCASE", "SUBSTANDARD", "SYLLABLENUM",
             "COMPOUNDROOT"}
BoolDirs == {"COMPLEXPREFIXES", "FULLSTRIP", "NOSPLITSUGS", "CHECKSHARPS", "CHECKCOMPOUNDCASE",
             "CHECKCOMPOUNDDUP", "CHECKCOMPOUNDREP", "CHECKCOMPOUNDTRIPLE", "SIMPLIFIEDTRIPLE",
             "ONLYMAXDIFF", "COMPOUNDMORESUFFIXES"}
TableDirs == {"BREAK", "COMPOUNDRULE", "ICONV", "OCONV", "REP", "MAP", "CHECKCOMPOUNDPATTERN", "AF", "AM", "PHONE"}

QwertyKeys == <<113,119,101,114,116,121,117,105,111,112,124,97,115,100,102,103,104,106,107,108,124,
                122,120,99,118,98,110,109>>

(* --- flags ------------------------------------------------------------------ *)
\* pieces of two characters
Pairs(t) == {SubSeq(t, 2*i - 1, 2*i) : i \in 1..(Len(t) \div 2)}
\* numbers followed by a comma or the end
NumFlags(t) == {x \in {SplitN(t, 44, -1)[i] : i \in DOMAIN SplitN(t, 44, -1)} : x # <<>>}
SplitFlags(fmt, t) ==
    CASE fmt = "long" -> Pairs(t)
      [] fmt = "num"  -> NumFlags(t)
      [] OTHER        -> {<<t[i]>> : i \in 1..Len(t)}
FirstFlag(fmt, t) ==
    CASE fmt = "long" -> SubSeq(t, 1, 2)
      [] fmt = "num"  -> SplitN(t, 44, -1)[1]
      [] OTHER        -> <<t[1]>>
\* flags of words and affixes: a number is an alias when there are aliases
ParseFlags(ctx, t) ==
    IF t # <<>> /\ ctx.af # <<>> /\ IsAsciiDigits(t) THEN ctx.af[IntOf(t)] ELSE SplitFlags(ctx.fmt, t)

(* --- values ------------------------------------------------------------------ *)
\* condition: sequence of [neg, cs]; "." is neg with no characters
RECURSIVE ParseCond(_)
ParseCond(t) ==
    IF t = <<>> THEN <<>>
    ELSE IF t[1] = 46 THEN <<[neg |-> TRUE, cs |-> {}]>> \o ParseCond(Tail(t))
    ELSE IF t[1] = 91 THEN
        LET close == Find(t, <<93>>, 1)
            body  == Slice(t, 1, close)
        IN (IF body # <<>> /\ body[1] = 94
            THEN <<[neg |-> TRUE, cs |-> Range1(Tail(body))]>>
            ELSE <<[neg |-> FALSE, cs |-> Range1(body)]>>) \o ParseCond(Drop(t, close + 1))
    ELSE <<[neg |-> FALSE, cs |-> {t[1]}]>> \o ParseCond(Tail(t))

CondAt(cond, s, off) ==
    /\ off >= 0
    /\ off + Len(cond) <= Len(s)
    /\ \A i \in 1..Len(cond) : (s[off + i] \in cond[i].cs) # cond[i].neg
CondPrefix(cond, s) == CondAt(cond, s, 0)
CondSuffix(cond, s) == CondAt(cond, s, Len(s) - Len(cond))

ZeroEmpty(t) == IF t = <<48>> THEN <<>> ELSE t

\* one row of SFX/PFX: flag, strip, add/flags, condition
MakeAffix(ctx, flag, cross, row) ==
    LET slash == Find(row[3], <<47>>, 0)
        add0  == IF slash = -1 THEN row[3] ELSE Take(row[3], slash)
        fl    == IF slash = -1 THEN <<>> ELSE Drop(row[3], slash + 1)
        add   == RemoveChars(add0, ctx.ignore)
    IN [flag |-> flag, cross |-> cross, strip |-> ZeroEmpty(row[2]), add |-> ZeroEmpty(add),
        cond |-> TLCEval(ParseCond(IF Len(row) > 3 THEN row[4] ELSE <<>>)),
        craw |-> IF Len(row) > 3 THEN row[4] ELSE <<>>,
        flags |-> TLCEval(ParseFlags(ctx, fl))]

\* ^ and $ are anchors, everything else is literal
AnchorPattern(t) ==
    LET b == t # <<>> /\ t[1] = 94
        u == IF b THEN Tail(t) ELSE t
        e == u # <<>> /\ u[Len(u)] = 36
    IN [bol |-> b, eol |-> e, lit |-> IF e THEN Take(u, Len(u) - 1) ELSE u]
AnchorMatchAt(p, s, i) ==
    /\ OccursAt(s, p.lit, i)
    /\ p.bol => i = 0
    /\ p.eol => i + Len(p.lit) = Len(s)
\* offsets of non-overlapping occurrences, left to right
RECURSIVE AnchorMatches(_, _, _)
AnchorMatches(p, s, i) ==
    IF i > Len(s) THEN <<>>
    ELSE IF AnchorMatchAt(p, s, i) THEN <<i>> \o AnchorMatches(p, s, i + Max2(1, Len(p.lit)))
    ELSE AnchorMatches(p, s, i + 1)

RepRow(pat, repl) == [pat |-> AnchorPattern(pat), repl |-> ReplaceChar(repl, Under, <<Space>>), raw |-> repl]

\* conversion row: _ at the ends are anchors, other _ are dropped; in the result _ is a space
ConvRow(row) ==
    LET p == row[1]
    IN [bol |-> p[1] = Under, eol |-> p[Len(p)] = Under, lit |-> RemoveChars(p, {Under}),
        repl |-> ReplaceChar(row[2], Under, <<Space>>)]
\* at an offset: the row with the longest text that matches (rows of equal length have equal texts: the first one)
ConvBest(rows, s, i) ==
    LET ms == {k \in DOMAIN rows : AnchorMatchAt(rows[k], s, i)}
    IN IF ms = {} THEN 0
       ELSE CHOOSE k \in ms : \A j \in ms : \/ Len(rows[j].lit) < Len(rows[k].lit)
                                            \/ Len(rows[j].lit) = Len(rows[k].lit) /\ k <= j
RECURSIVE ConvFrom(_, _, _)
ConvFrom(rows, s, i) ==
    IF i >= Len(s) THEN <<>>
    ELSE LET k == ConvBest(rows, s, i)
         IN IF k = 0 THEN <<s[i + 1]>> \o ConvFrom(rows, s, i + 1)
            ELSE rows[k].repl \o ConvFrom(rows, s, i + Len(rows[k].lit))
Convert(rows, s) == IF rows = <<>> THEN s ELSE ConvFrom(rows, s, 0)

\* MAP row: characters and parenthesised groups
RECURSIVE MapRow(_)
MapRow(t) ==
    IF t = <<>> THEN <<>>
    ELSE IF t[1] = 40 THEN LET c == Find(t, <<41>>, 0)
                           IN <<Slice(t, 1, c)>> \o MapRow(Drop(t, c + 1))
    ELSE IF t[1] = 41 THEN MapRow(Tail(t))
    ELSE <<<<t[1]>>>> \o MapRow(Tail(t))

\* compound rule: sequence of [flag, q], q being "1", "*" or "?"
Quant(t, i) == IF i > Len(t) THEN "1" ELSE IF t[i] = 42 THEN "*" ELSE IF t[i] = 63 THEN "?" ELSE "1"
RECURSIVE RuleItems(_, _)
RuleItems(t, paren) ==
    IF t = <<>> THEN <<>>
    ELSE LET c == IF paren THEN Find(t, <<41>>, 0) ELSE 0
             f == IF paren THEN Slice(t, 1, c) ELSE <<t[1]>>
             q == Quant(t, c + 2)
         IN <<[flag |-> f, q |-> q]>> \o RuleItems(Drop(t, IF q = "1" THEN c + 1 ELSE c + 2), paren)
CompoundRuleOf(t) == RuleItems(t, HasChar(t, 40))

\* one side of CHECKCOMPOUNDPATTERN: text/flag, "0" meaning any affixed form
PatSide(t) ==
    LET slash == Find(t, <<47>>, 0)
        x == IF slash = -1 THEN t ELSE Take(t, slash)
    IN [affixed |-> x = <<48>>, stem |-> ZeroEmpty(x),
        flag |-> IF slash = -1 THEN <<>> ELSE Drop(t, slash + 1)]

\* PHONE rule: letters, optional set, dashes (how many of them are looked at only), ^ and $
PhoneRow(row) ==
    LET s == row[1]
        nletters == CHOOSE n \in 0..Len(s) : /\ \A i \in 1..n : IsWordC(s[i])
                                             /\ n < Len(s) => ~IsWordC(s[n + 1])
        par == nletters < Len(s) /\ s[nletters + 1] = 40
        \* a digit at the end is the priority, it belongs to the letters only when there is nothing before it
        cl  == IF par THEN Find(s, <<41>>, 0) ELSE -1
        rest == IF par THEN Drop(s, cl + 1) ELSE Drop(s, nletters)
        la == Cardinality({i \in 1..Len(rest) : rest[i] = Dash})
        items == [i \in 1..nletters |-> {s[i]}] \o
                 (IF par THEN <<Range1(Slice(s, nletters + 1, cl))>> ELSE <<>>)
        n == Len(items)
    IN [key |-> s[1], items |-> items, take |-> Max2(0, n - la), n |-> n,
        start |-> HasChar(rest, 94), end |-> HasChar(rest, 36),
        repl |-> IF row[2] = <<Under>> THEN <<>> ELSE row[2], raw |-> s]

(* --- the directives, one after another ------------------------------------ *)
Bools == [n \in BoolDirs |-> FALSE]
Flags0 == [n \in FlagDirs |-> <<>>]
Ints0 == [MAXDIFF |-> 0 - 1, MAXNGRAMSUGS |-> 4, MAXCPDSUGS |-> 3, COMPOUNDMIN |-> 3, COMPOUNDWORDMAX |-> 0]
Texts0 == [KEY |-> QwertyKeys, TRY |-> <<>>, WORDCHARS |-> <<>>, LANG |-> <<>>]
Tables0 == [BREAK |-> << <<45>>, <<94, 45>>, <<45, 36>> >>, COMPOUNDRULE |-> <<>>, ICONV |-> <<>>, OCONV |-> <<>>,
            REP |-> <<>>, MAP |-> <<>>, CHECKCOMPOUNDPATTERN |-> <<>>, AM |-> <<>>, PHONE |-> <<>>]

Aff0 == [bool |-> Bools, flag |-> Flags0, int |-> Ints0, text |-> Texts0, tab |-> Tables0,
         ignore |-> {}, sfx |-> <<>>, pfx |-> <<>>, phone |-> FALSE,
         ctx |-> [enc |-> "Windows-1252", fmt |-> "short", af |-> <<>>, ignore |-> {}]]

\* numbers of the next k non-empty lines after line n
RECURSIVE NextLines(_, _, _, _)
NextLines(enc, phys, n, k) ==
    IF k = 0 \/ n >= Len(phys) THEN <<>>
    ELSE IF LineText(enc, phys, n + 1) = <<>> THEN NextLines(enc, phys, n + 1, k)
    ELSE <<n + 1>> \o NextLines(enc, phys, n + 1, k - 1)

\* affix tables in order of first definition; a new definition of a flag replaces the table
PutTable(tabs, flag, rows) ==
    IF \E i \in DOMAIN tabs : tabs[i].flag = flag
    THEN [i \in DOMAIN tabs |-> IF tabs[i].flag = flag THEN [flag |-> flag, rows |-> rows] ELSE tabs[i]]
    ELSE Append(tabs, [flag |-> flag, rows |-> rows])

RowsText(rows) == [i \in DOMAIN rows |-> rows[i][1]]

TableValue(name, rows) ==
    CASE name \in {"BREAK"} -> RowsText(rows)
      [] name = "COMPOUNDRULE" -> [i \in DOMAIN rows |-> TLCEval(CompoundRuleOf(rows[i][1]))]
      [] name \in {"ICONV", "OCONV"} -> [i \in DOMAIN rows |-> TLCEval(ConvRow(rows[i]))]
      [] name = "REP" -> [i \in DOMAIN rows |-> TLCEval(RepRow(rows[i][1], rows[i][2]))]
      [] name = "MAP" -> [i \in DOMAIN rows |-> TLCEval(MapRow(rows[i][1]))]
      [] name = "CHECKCOMPOUNDPATTERN" ->
            [i \in DOMAIN rows |-> [left |-> TLCEval(PatSide(rows[i][1])), right |-> TLCEval(PatSide(rows[i][2])),
                                     repl |-> IF Len(rows[i]) > 2 THEN rows[i][3] ELSE <<>>]]
      [] name = "AM" -> rows
      [] name = "PHONE" -> [i \in DOMAIN rows |-> TLCEval(PhoneRow(rows[i]))]

\* encodings are named by the harness's table; other spellings of the same name are mapped there
EncOf(t) == LET k == CHOOSE k \in DOMAIN UniData.encnames : UniData.encnames[k].name = t
            IN UniData.encnames[k].enc
FmtOf(t) == IF t = <<108, 111, 110, 103>> THEN "long"
            ELSE IF t = <<110, 117, 109>> THEN "num"
            ELSE IF t = <<85, 84, 70, 45, 56>> THEN "UTF-8" ELSE "short"

\* state after the directive on line n: [n: last line read, a: aff so far]
Directive(phys, n, a) ==
    LET toks == Tokens(LineText(a.ctx.enc, phys, n))
        name == Synonym(DirName(toks[1]))
        has  == Len(toks) > 1
        val  == IF has THEN toks[2] ELSE <<>>
        cnt  == IF name \in {"SFX", "PFX"} THEN IntOf(toks[4]) ELSE IntOf(val)
        nums == NextLines(a.ctx.enc, phys, n, cnt)
        rows == TLCEval([i \in DOMAIN nums |-> Tail(Tokens(LineText(a.ctx.enc, phys, nums[i])))])
        last == IF nums = <<>> THEN n ELSE nums[Len(nums)]
        one(b) == [n |-> n, a |-> b]
        tab(b) == [n |-> last, a |-> b]
    IN CASE name = "SET" -> one(IF has THEN [a EXCEPT !.ctx.enc = EncOf(val)] ELSE a)
         [] name = "FLAG" -> one(IF ~has THEN a
                                 ELSE IF FmtOf(val) = "UTF-8" THEN [a EXCEPT !.ctx.fmt = "UTF-8", !.ctx.enc = "UTF-8"]
                                 ELSE [a EXCEPT !.ctx.fmt = FmtOf(val)])
         [] name = "IGNORE" -> one([a EXCEPT !.ignore = Range1(val), !.ctx.ignore = Range1(val)])
         [] name \in TextDirs -> one(IF has THEN [a EXCEPT !.text[name] = val] ELSE a)
         [] name \in IntDirs -> one([a EXCEPT !.int[name] = IntOf(val)])
         [] name \in FlagDirs -> one([a EXCEPT !.flag[name] = FirstFlag(a.ctx.fmt, val)])
         [] name \in BoolDirs -> one([a EXCEPT !.bool[name] = TRUE])
         [] name \in {"SFX", "PFX"} ->
                LET tb == TLCEval([i \in DOMAIN rows |-> MakeAffix(a.ctx, val, toks[3] = <<89>>, rows[i])])
                IN tab(IF rows = <<>> THEN a
                       ELSE IF name = "SFX" THEN [a EXCEPT !.sfx = PutTable(@, val, tb)]
                       ELSE [a EXCEPT !.pfx = PutTable(@, val, tb)])
         [] name = "AF" -> tab([a EXCEPT !.ctx.af =
                                  TLCEval([i \in DOMAIN rows |-> SplitFlags(a.ctx.fmt, rows[i][1])])])
         [] name = "PHONE" -> tab([a EXCEPT !.tab.PHONE = TLCEval(TableValue(name, rows)), !.phone = TRUE])
         [] name \in TableDirs -> tab([a EXCEPT !.tab[name] = TLCEval(TableValue(name, rows))])
         [] OTHER -> one(a)

RECURSIVE AffFrom(_, _, _)
AffFrom(phys, n, a) ==
    IF n > Len(phys) THEN a
    ELSE IF LineText(a.ctx.enc, phys, n) = <<>> THEN AffFrom(phys, n + 1, a)
    ELSE LET r == Directive(phys, n, a) IN AffFrom(phys, r.n + 1, TLCEval(r.a))

TurkicLangs == { <<116,114>>, <<116,114,95,84,82>>, <<97,122>>, <<97,122,95,65,90>>,
                 <<99,114,104>>, <<99,114,104,95,85,65>> }

\* affix tables as one sequence, ordered by length of the added text (order of definition for equals)
RECURSIVE ByLenFrom(_, _, _)
ByLenFrom(as, n, max) == IF n > max THEN <<>>
                         ELSE SelectSeq(as, LAMBDA x : Len(x.add) = n) \o ByLenFrom(as, n + 1, max)
ByLen(tabs) == LET as == Flat([i \in DOMAIN tabs |-> tabs[i].rows])
               IN IF as = <<>> THEN <<>>
                  ELSE ByLenFrom(as, 0, Max({Len(as[i].add) : i \in DOMAIN as}))

ReadAff(bytes) ==
    LET phys == TLCEval(PhysLines(bytes))
        a == AffFrom(phys, 1, Aff0)
    IN [bool |-> a.bool, flag |-> a.flag, int |-> a.int, text |-> a.text,
        tab |-> [a.tab EXCEPT !.BREAK = TLCEval([i \in DOMAIN @ |-> AnchorPattern(@[i])])],
        ignore |-> a.ignore, phone |-> a.phone, ctx |-> a.ctx,
        sfx |-> TLCEval(ByLen(a.sfx)), pfx |-> TLCEval(ByLen(a.pfx)),
        sfxtabs |-> a.sfx, pfxtabs |-> a.pfx,
        casing |-> IF a.bool.CHECKSHARPS THEN "de" ELSE IF a.text.LANG \in TurkicLangs THEN "tr" ELSE "std"]
=============================================================================
