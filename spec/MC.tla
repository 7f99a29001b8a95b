--------------------------------- MODULE MC ---------------------------------
(***************************************************************************)
(* All the dictionaries of a menu: VP_MENU is a JSON file                  *)
(*   [law, groups, words, sugs]                                            *)
(* groups is a sequence of sequences of alternatives [aff, dic] (bytes);   *)
(* a dictionary takes one alternative of each group; caff and cdic give    *)
(* another dictionary to compare with: the same in the plainest notation   *)
(* (C09), in another order or with less entries (C29), with directives     *)
(* which lookup doesn't know (C31), without the restriction (C32).  For    *)
(* each dictionary the law has to hold for the words, and the answers are  *)
(* written to the file VP_VECTORS, to be replayed in the library.          *)
(***************************************************************************)
EXTENDS Laws, CSV

Menu == JsonDeserialize(IOEnv.VP_MENU)
Groups == Menu.groups
MWords == Menu.words
MSugs == Menu.sugs
MWordSet == TLCEval(Range1(MWords))
MSugSet == TLCEval(Range1(MSugs))

VARIABLES pick, fails
mcvars == <<ds, its, pick, fails>>

AffOf(p) == Flat([g \in 1..Len(p) |-> Groups[g][p[g]].aff])
DicOf(p) == Flat([g \in 1..Len(p) |-> Groups[g][p[g]].dic])

\* the same in the plainest notation
CAffOf(p) == Flat([g \in 1..Len(p) |-> Groups[g][p[g]].caff])
CDicOf(p) == Flat([g \in 1..Len(p) |-> Groups[g][p[g]].cdic])

\* the answers of a dictionary
Answers(d) == [scan |-> [i \in 1..Len(MWords) |-> IF LookupWord(d, MWords[i]) THEN 1 ELSE 0],
               lists |-> [i \in 1..Len(MSugs) |-> SuggestTexts(d, MSugs[i])]]

Differ(a, b) == {MWords[i] : i \in {j \in DOMAIN MWords : a.scan[j] # b.scan[j]}}
                \cup {MSugs[i] : i \in {j \in DOMAIN MSugs : a.lists[j] # b.lists[j]}}

\* words which were accepted by the dictionary with less entries, or with a restriction
Lost(a, b) == {MWords[i] : i \in {j \in DOMAIN MWords : b.scan[j] = 1 /\ a.scan[j] = 0}}

MCInit == pick = <<>> /\ fails = {} /\ SInit

MCNext ==
    /\ Len(pick) < Len(Groups)
    /\ UNCHANGED <<ds, its>>
    /\ \E i \in 1..Len(Groups[Len(pick) + 1]) :
          LET p == Append(pick, i)
          IN /\ pick' = p
             /\ IF Len(p) < Len(Groups) THEN fails' = {}
                ELSE LET d == Load(AffOf(p), DicOf(p))
                         a == TLCEval(Answers(d))
                         c == Load(CAffOf(p), CDicOf(p))
                     IN /\ fails' = TLCEval(CASE Menu.law \in {"C09", "C29", "C31"} -> Differ(a, Answers(c))
                                               [] Menu.law \in {"C29+", "C32"} -> Lost(a, Answers(c))
                                               [] Menu.law = "C25" -> IF OptionsShown(d) = OptionsShown(c) THEN {} ELSE {<<>>}
                                               [] Menu.law = "C24" /\ EntriesShown(d) # EntriesShown(c) -> {<<>>}
                                               [] OTHER -> Fails(Menu.law, d, MWordSet, MSugSet))
                        /\ CSVWrite("%1$s#%2$s", <<ToJson(p), ToJson(a)>>, IOEnv.VP_VECTORS)

MCSpec == MCInit /\ [][MCNext]_mcvars
LawHolds == fails = {}
=============================================================================
