---------------------------- MODULE TraceVersion ----------------------------
(***************************************************************************)
(* Conformance: what a real project under git did, and the versions that   *)
(* the real code (_version.py, versioneer.py, setup.py, the import of the  *)
(* package, what was built from it) reported, against RepoLib.  Operations *)
(* advance the repository by the action they stand for; reports are judged *)
(* against the ones the specification permits at that point.               *)
(***************************************************************************)
EXTENDS RepoLib, Json, IOUtils

Cases == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES c, i, n
tvars == <<repo, arts, c, i, n>>

Events == Cases[c].events
E == Events[i]
More == i <= Len(Events)
Say(cl) == PrintT("BAD " \o ToJson([case |-> c, event |-> i, k |-> 0, clause |-> cl]))
Judge(cl, good) == (IF good THEN TRUE ELSE Say(cl)) = TRUE /\ n' = n + 1
Rng(s) == {s[j] : j \in 1..Len(s)}

(* a recorded report o; fields that were not observed are "?" *)
Field(o, f) == o[f] = "?"
Agrees(o, v) == /\ o.raised = ""
                /\ o.version = v.version
                /\ (Field(o, "full") \/ o.full = v.full) /\ (Field(o, "dirty") \/ o.dirty = v.dirty)
                /\ (Field(o, "error") \/ (o.error = "T") = v.error) /\ (Field(o, "date") \/ o.date = v.date)
Permitted(o, vs) == \E v \in vs : Agrees(o, v)

Advance == i' = i + 1 /\ UNCHANGED c
TraceInit == /\ c \in 1..Len(Cases) /\ i = 1 /\ n = 0 /\ arts = <<>>
             /\ repo = Start("", "", "main")

Did == /\ More
       /\ CASE E.op = "start" -> repo' = Start(E.full, E.date, E.name) /\ UNCHANGED arts
            [] E.op = "commit" -> Commit(E.full, E.date) /\ UNCHANGED arts
            [] E.op = "merge" -> Merge(E.name, E.full, E.date) /\ UNCHANGED arts
            [] E.op = "commits" -> Commits(E.fulls, E.date) /\ UNCHANGED arts
            [] E.op = "abbrev" -> Abbrev(E.c) /\ UNCHANGED arts
            [] E.op = "tag" -> Tag(E.name) /\ UNCHANGED arts
            [] E.op = "untag" -> Untag(E.name) /\ UNCHANGED arts
            [] E.op = "branch" -> NewBranch(E.name) /\ UNCHANGED arts
            [] E.op = "switch" -> Switch(E.name) /\ UNCHANGED arts
            [] E.op = "detach" -> Detach(E.c) /\ UNCHANGED arts
            [] E.op = "edit" -> Edit /\ UNCHANGED arts
            [] E.op = "discard" -> Discard /\ UNCHANGED arts
            [] E.op = "untracked" -> Untracked /\ UNCHANGED arts
            [] E.op = "build" -> Build /\ UNCHANGED repo
            [] E.op = "archive" -> Archive /\ UNCHANGED repo
            [] E.op = "rebuild" -> Rebuild(E.c) /\ UNCHANGED repo
            [] OTHER -> FALSE
       /\ UNCHANGED n /\ Advance
Obs == /\ More /\ E.op = "obs"
       /\ Judge(E.who, Permitted(E.out, Versions(repo, E.style)))
       /\ UNCHANGED <<repo, arts>> /\ Advance
(* from another working tree of the same repository *)
ObsElsewhere ==
       /\ More /\ E.op = "elsewhere"
       /\ Judge(E.who, Permitted(E.out, Versions(IF E.how = "linked" THEN Linked(repo) ELSE Cloned(repo), "pep440")))
       /\ UNCHANGED <<repo, arts>> /\ Advance
ObsArt == /\ More /\ E.op = "obsart"
          /\ Judge(E.who, Permitted(E.out, arts[E.c]))
          /\ UNCHANGED <<repo, arts>> /\ Advance
ObsRender == /\ More /\ E.op = "render"
             /\ Judge(E.who, IF E.style \in Styles \cup {"", "default"} THEN Agrees(E.out, Render(E.p, E.style))
                             ELSE E.p.error # "" \/ E.out.raised # "")
             /\ UNCHANGED <<repo, arts>> /\ Advance
RepoOf(r) == [cm |-> [j \in 1..Len(r.cm) |-> [par |-> Rng(r.cm[j].par), full |-> r.cm[j].full, date |-> r.cm[j].date]],
              tags |-> Rng(r.tags), br |-> Rng(r.br), on |-> r.on, at |-> r.at, dirty |-> r.dirty, abbrev |-> 7]
LayoutOf(l) == [frozen |-> l.frozen, git |-> l.git, dirs |-> l.dirs,
                kw |-> IF l.kw = <<>> THEN <<>> ELSE <<[refs |-> Rng(l.kw[1].refs), full |-> l.kw[1].full, date |-> l.kw[1].date]>>,
                repo |-> IF l.repo = <<>> THEN <<>> ELSE <<RepoOf(l.repo[1])>>]
ObsLayout == /\ More /\ E.op = "layout"
             /\ Judge(E.who, Permitted(E.out, Resolve(LayoutOf(E.l))))
             /\ UNCHANGED <<repo, arts>> /\ Advance
Same == /\ More /\ E.op = "same"
        /\ Judge(E.name, E.a = E.b)
        /\ UNCHANGED <<repo, arts>> /\ Advance
Finish == /\ i = Len(Events) + 1
          /\ PrintT("DONE " \o ToJson([case |-> c, judged |-> n]))
          /\ i' = i + 1 /\ UNCHANGED <<repo, arts, c, n>>
TraceNext == Did \/ Obs \/ ObsElsewhere \/ ObsArt \/ ObsRender \/ ObsLayout \/ Same \/ Finish
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
