------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Validation of recorded behaviours of the real library against Session.  *)
(*                                                                         *)
(* The file named by VP_TRACE is [files, runs, bundled]: files are pairs   *)
(* of byte sequences [aff, dic]; a run is a sequence of events             *)
(*   [op, j, slot, it, w, ws, file, res, ...]                              *)
(* with res = [k, v], what the library really did.  Every run is replayed  *)
(* from an initial state, one event per step.  j says how the recorded     *)
(* answer is judged:                                                       *)
(*   "exact"  equal to the answer of the specification                     *)
(*   "total"  some answer of the right kind                                *)
(*   "learn"  equal to the first answer recorded for the same files and    *)
(*            request (mem), whatever that is                              *)
(*   "grown"  accepted are the words which were accepted with the files     *)
(*            ev.base, and the words ev.added                              *)
(*   "both"   both                                                         *)
(*   "sound", "limits", "hidden"  see Judgements                           *)
(***************************************************************************)
EXTENDS Judgements, Reader

TraceData == JsonDeserialize(IOEnv.VP_TRACE)
Runs == TraceData.runs
FilePairs == TraceData.files
BundledFiles == TraceData.bundled

VARIABLES run, pos, verdict, mem, layout
vars == <<ds, its, rds, run, pos, verdict, mem, layout>>

Good == [ok |-> TRUE]
Verdict(ok, exp) == verdict' = IF ok THEN Good ELSE [ok |-> FALSE, run |-> run, pos |-> pos, exp |-> exp]
Same(ev, exp) == ev.res.k = exp.k /\ ev.res.v = exp.v

TInit == /\ run \in 1..Len(Runs)
         /\ pos = 1
         /\ verdict = Good
         /\ mem = EmptyMap
         /\ layout = <<>>
         /\ SInit
         /\ RInit

\* files with the same content in different notation have the same number
ContentOf(ev) == IF "content" \in DOMAIN ev THEN ev.content ELSE ev.file

NoDict == [none |-> TRUE]
DictOf(ev, file) == IF ev.j = "learn" THEN NoDict ELSE Load(FilePairs[file].aff, FilePairs[file].dic)

\* the answer of the specification; for several words: one by one
SpecAnswer(d, ev) ==
    CASE ev.op = "lookup" -> [k |-> "bool", v |-> LookupWord(d, ev.w)]
      [] ev.op = "scan" -> [k |-> "scan", v |-> TLCEval([i \in 1..Len(ev.ws) |-> LookupWord(d, ev.ws[i])])]
      [] ev.op = "suggest" -> [k |-> "list", v |-> SuggestTexts(d, ev.w)]
      [] ev.op = "kinds" -> [k |-> "kinds", v |-> Suggestions(d, ev.w)]
      [] ev.op = "checks" -> [k |-> "scan", v |-> TLCEval([i \in 1..Len(ev.ws) |-> CheckWord(d, ev.ws[i], ev.opt)])]
      [] ev.op = "forms" -> [k |-> "forms", v |-> [i \in 1..Len(ev.ws) |-> WordReadings(d, ev.ws[i], ev.opt)]]
      [] ev.op = "entries" -> [k |-> "entries", v |-> EntriesShown(d)]
      [] ev.op = "homonyms" -> [k |-> "homonyms", v |-> [i \in 1..Len(ev.ws) |-> HomonymsShown(d, ev.ws[i])]]
      [] ev.op = "flagged" -> [k |-> "flagged", v |-> [i \in 1..Len(ev.qs) |-> FlagShown(d, ev.qs[i])]]
      [] ev.op = "options" -> [k |-> "options", v |-> OptionsShown(d)]
      [] ev.op = "casing" -> [k |-> "casing", v |-> [i \in 1..Len(ev.ws) |-> CasingShown(d.aff.casing, ev.ws[i])]]
      [] ev.op = "edits" -> [k |-> "edits", v |-> CandidatesShown(d, ev.w)]
      [] ev.op = "measures" -> [k |-> "measures", v |-> [i \in 1..Len(ev.qs) |-> MeasuresShown(ev.qs[i][1], ev.qs[i][2], ev.combos)]]
      [] ev.op = "codes" -> [k |-> "codes", v |-> [i \in 1..Len(ev.ws) |-> CodeShown(d, ev.ws[i])]]
      [] ev.op = "convs" -> [k |-> "convs", v |-> [i \in 1..Len(ev.ws) |-> ConvsShown(d, ev.ws[i])]]
      [] ev.op = "rules" -> [k |-> "rules", v |-> [i \in 1..Len(ev.qs) |-> RulesShown(d, ev.qs[i])]]
      [] ev.op = "patterns" -> [k |-> "patterns", v |-> [i \in 1..Len(ev.qs) |-> PatternsShown(d, ev.qs[i][1], ev.qs[i][2])]]
      [] ev.op = "made" -> [k |-> "made", v |-> [i \in 1..Len(d.words) |-> BagOf(RootForms(d, d.words[i], ev.w))]]
      [] ev.op = "near" -> [k |-> "near", v |-> SimilarShown(d, ev.w, ev.known)]

\* the recorded answer in the same terms
RecordedAnswer(ev) ==
    CASE ev.res.k = "forms" -> [k |-> "forms", v |-> [i \in 1..Len(ev.res.v) |-> RecordedReadings(ev.res.v[i])]]
      [] ev.res.k = "entries" -> [k |-> "entries", v |-> RecordedEntries(ev.res.v)]
      [] ev.res.k = "options" -> [k |-> "options", v |-> RecordedOptions(ev.res.v)]
      [] ev.res.k = "casing" -> [k |-> "casing", v |-> [i \in 1..Len(ev.res.v) |-> RecordedCasing(ev.res.v[i])]]
      [] ev.res.k = "edits" -> [k |-> "edits", v |-> Once(ev.res.v)]
      [] ev.res.k = "made" -> [k |-> "made", v |-> [i \in 1..Len(ev.res.v) |-> BagOf(ev.res.v[i])]]
      [] OTHER -> ev.res

\* the expectation in a failed verdict: the places which differ, where the answer isn't a plain value
Explained(exp, got) ==
    CASE got.k # exp.k -> Done(exp.k)
      [] exp.k \in {"forms", "entries", "casing", "edits", "made"} ->
            [k |-> "differ", v |-> SelectSeq([i \in 1..Max2(Len(exp.v), Len(got.v)) |-> i],
                                       LAMBDA i : i > Len(exp.v) \/ i > Len(got.v) \/ exp.v[i] # got.v[i])]
      [] exp.k = "options" -> [k |-> "differ", v |-> {n \in DOMAIN exp.v : exp.v[n] # got.v[n]}]
      [] OTHER -> exp

KindOf(op) == CASE op = "lookup" -> "bool" [] op = "scan" -> "scan" [] op = "suggest" -> "list"

\* requests which leave the state alone
Request(ev) ==
    LET s == ds[ev.slot]
        key == <<s.file, ev.op, IF ev.op = "scan" THEN ev.ws ELSE ev.w>>    \* not for exact answers
    IN CASE ev.res.k = "absent" ->       \* an object behind the dictionary goes by another name
              Verdict(TRUE, <<>>) /\ UNCHANGED mem
         [] ev.j = "exact" ->
              LET exp == SpecAnswer(s.d, ev)
                  got == RecordedAnswer(ev)
              IN Verdict(got.k = exp.k /\ got.v = exp.v, Explained(exp, got)) /\ UNCHANGED mem
         [] ev.j = "total" ->
              Verdict(ev.res.k = KindOf(ev.op), Done(KindOf(ev.op))) /\ UNCHANGED mem
         [] ev.j = "both" ->
              LET exp == SpecAnswer(s.d, ev)
                  old == IF key \in DOMAIN mem THEN mem[key] ELSE exp
              IN /\ Verdict(Same(ev, exp) /\ Same(ev, old), IF Same(ev, exp) THEN old ELSE exp)
                 /\ mem' = TLCEval(IF key \in DOMAIN mem THEN mem ELSE Put(mem, key, ev.res))
         [] ev.j = "learn" ->
              IF key \in DOMAIN mem
              THEN Verdict(Same(ev, mem[key]), mem[key]) /\ UNCHANGED mem
              ELSE Verdict(ev.res.k = KindOf(ev.op), Done(KindOf(ev.op))) /\ mem' = TLCEval(Put(mem, key, ev.res))
         [] ev.j = "grown" ->
              LET old == mem[<<ev.base, ev.op, ev.ws>>].v
                  lost == SelectSeq([i \in 1..Len(ev.ws) |-> i],
                                    LAMBDA i : ~ev.res.v[i] /\ (old[i] \/ ev.ws[i] \in Range1(ev.added)))
              IN /\ IF ev.res.k # "scan" THEN Verdict(FALSE, Done("scan")) ELSE Verdict(lost = <<>>, [k |-> "lost", v |-> lost])
                 /\ UNCHANGED mem
         [] OTHER ->
              LET why == IF ev.res.k # "list" THEN <<"no list">> ELSE Judged(ev.j, s.d, ev.w, ev.res.v)
              IN Verdict(why = <<>>, why) /\ UNCHANGED mem

\* readers of files
ReaderStep(ev) ==
    /\ UNCHANGED <<ds, its, mem, layout>>
    /\ IF ev.res.k = "absent" THEN UNCHANGED rds /\ Verdict(TRUE, <<>>)
       ELSE CASE ev.op = "ropen" -> ROpen(ev.rd, FilePairs[ev.file][ev.part], ev.enc) /\ Verdict(Same(ev, Done("done")), Done("done"))
              [] ev.op = "renc" -> REncode(ev.rd, ev.enc) /\ Verdict(Same(ev, Done("done")), Done("done"))
              [] ev.op = "rnext" -> RNext(ev.rd) /\ Verdict(Same(ev, LineAnswer(ev.rd)), LineAnswer(ev.rd))
              [] ev.op = "rrest" -> RRest(ev.rd) /\ Verdict(Same(ev, RestAnswer(ev.rd)), RestAnswer(ev.rd))

\* requests to dictionaries
SessionStep(ev) ==
    CASE ev.op = "open" ->
                 /\ Open(ev.slot, ContentOf(ev), DictOf(ev, ev.file))
                 /\ Verdict(Same(ev, Done("done")), Done("done"))
                 /\ UNCHANGED <<mem, layout>>
            [] ev.op = "layout" ->
                 layout' = ev.items /\ Ask /\ Verdict(TRUE, Done("done")) /\ UNCHANGED mem
            [] ev.op = "openat" ->
                 LET f == Resolve(layout, BundledFiles, ev)
                     exp == IF f = 0 THEN Done("nofile") ELSE Done("done")
                 IN /\ IF f = 0 THEN Ask ELSE Open(ev.slot, f, DictOf(ev, f))
                    /\ Verdict(ev.res.k = exp.k, exp)
                    /\ UNCHANGED <<mem, layout>>
            [] ev.op = "fresh" ->     \* an answer in a process of its own
                 LET key == <<ev.file, ev.req.op, IF ev.req.op = "scan" THEN ev.req.ws ELSE ev.req.w>>
                 IN /\ Ask
                    /\ Verdict(ev.res.k = KindOf(ev.req.op) /\ (key \in DOMAIN mem => Same(ev, mem[key])),
                               IF key \in DOMAIN mem THEN mem[key] ELSE Done(KindOf(ev.req.op)))
                    /\ mem' = TLCEval(Put(mem, key, ev.res))
                    /\ UNCHANGED layout
            [] ev.op = "forget" -> Forget(ev.slot) /\ Verdict(Same(ev, Done("done")), Done("done")) /\ UNCHANGED <<mem, layout>>
            [] ev.op \in {"lookup", "scan", "suggest", "kinds", "checks", "forms", "entries", "homonyms", "flagged",
                           "options", "casing", "edits", "near", "measures", "codes",
                           "convs", "rules", "patterns", "made"} -> Ask /\ Request(ev) /\ UNCHANGED layout
            [] ev.op = "start" ->
                 LET s == ds[ev.slot]
                 IN /\ Start(ev.it, IF ev.j = "learn" THEN mem[<<s.file, "suggest", ev.w>>].v ELSE SuggestTexts(s.d, ev.w))
                    /\ Verdict(Same(ev, Done("done")), Done("done")) /\ UNCHANGED <<mem, layout>>
            [] ev.op = "next" -> Advance(ev.it) /\ Verdict(Same(ev, NextAnswer(ev.it)), NextAnswer(ev.it)) /\ UNCHANGED <<mem, layout>>
            [] ev.op = "drop" -> Drop1(ev.it) /\ Verdict(Same(ev, Done("done")), Done("done")) /\ UNCHANGED <<mem, layout>>

TNext ==
    /\ verdict.ok
    /\ pos <= Len(Runs[run])
    /\ pos' = pos + 1
    /\ UNCHANGED run
    /\ LET ev == Runs[run][pos]
       IN IF ev.op \in {"ropen", "renc", "rnext", "rrest"} THEN ReaderStep(ev)
          ELSE UNCHANGED rds /\ SessionStep(ev)

TSpec == TInit /\ [][TNext]_vars

Conforms == verdict.ok
TraceView == <<run, pos, verdict.ok>>
=============================================================================
