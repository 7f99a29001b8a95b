------------------------------ MODULE Readers ------------------------------
(***************************************************************************)
(* Behaviours of Reader: VP_MENU is [files, encs, readers, depth], files   *)
(* being sequences of bytes.  Histories of opening, reading and changing   *)
(* the encoding are written to VP_VECTORS and replayed in the library.     *)
(***************************************************************************)
EXTENDS Reader, CSV

Menu == JsonDeserialize(IOEnv.VP_MENU)
Rs == 1..Menu.readers
Fs == 1..Len(Menu.files)
Es == 1..Len(Menu.encs)

VARIABLES hist, given     \* given: reader -> lines given so far, with the encoding in force, and the last line looked at before

Note(e) == /\ hist' = Append(hist, e)
           /\ Len(hist') = Menu.depth => CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.VP_VECTORS)

RMInit == RInit /\ hist = <<>> /\ given = [r \in Rs |-> <<>>]
RMOpen == \E r \in Rs \ DOMAIN rds, f \in Fs, e \in Es :
             /\ (r > 1 => r - 1 \in DOMAIN rds)
             /\ ROpen(r, Menu.files[f], Menu.encs[e]) /\ Note([op |-> "ropen", rd |-> r, file |-> f, enc |-> Menu.encs[e]]) /\ UNCHANGED given
RMNext == \E r \in DOMAIN rds :
             /\ RNext(r) /\ Note([op |-> "rnext", rd |-> r])
             /\ given' = IF LineAnswer(r).k = "end" THEN given
                         ELSE [given EXCEPT ![r] = Append(@, [line |-> LineAnswer(r).v, enc |-> rds[r].enc, from |-> rds[r].no])]
RMEncode == \E r \in DOMAIN rds, e \in Es : /\ rds[r].enc # Menu.encs[e]
                                           /\ REncode(r, Menu.encs[e]) /\ Note([op |-> "renc", rd |-> r, enc |-> Menu.encs[e]]) /\ UNCHANGED given
RMStep == Len(hist) < Menu.depth /\ (RMOpen \/ RMNext \/ RMEncode)
RMSpec == RMInit /\ [][RMStep]_<<rds, hist, given>>

Blankish(t) == \A i \in 1..Len(t) : IsSpaceC(t[i])
\* every line is given once, in order, and only blank ones are left out
InOrder == \A r \in DOMAIN rds : \A i \in 1..Len(given[r]) :
              LET g == given[r][i]
              IN /\ g.from < g.line.no /\ (i > 1 => given[r][i - 1].line.no <= g.from)
                 /\ \A n \in (g.from + 1)..(g.line.no - 1) : n > 1 => Blankish(Decode(g.enc, rds[r].phys[n]))
\* a line is the text of the file in the encoding in force, without spaces around
AsWritten == \A r \in DOMAIN rds : \A i \in 1..Len(given[r]) :
              LET g == given[r][i]
                  t == g.line.text
                  all == Decode(g.enc, rds[r].phys[g.line.no])
              IN /\ t # <<>> /\ ~IsSpaceC(t[1]) /\ ~IsSpaceC(t[Len(t)])
                 /\ HasSub(all, t)
                 /\ g.line.no > 1 => \E k \in 0..(Len(all) - Len(t)) : /\ Slice(all, k, k + Len(t)) = t
                                                                      /\ Blankish(Take(all, k)) /\ Blankish(Drop(all, k + Len(t)))
                 /\ g.line.no = 1 => t[1] # BomChar
\* a reader is of no importance to another
OnlyOwn == [][\A r \in DOMAIN rds : rds'[r] # rds[r] => hist'[Len(hist')].rd = r]_<<rds, hist, given>>
=============================================================================
