------------------------------- MODULE MCRepo -------------------------------
(***************************************************************************)
(* All repositories a developer can reach in MaxOps steps, and the laws of *)
(* the versions they get (V01, V04).  script is the shortest way there     *)
(* (not part of the state that is distinguished).                          *)
(***************************************************************************)
EXTENDS RepoLib, Json

CONSTANTS MaxOps, MaxCommits, MaxArts, AbbrevLens, TagNames, BrNames, Emit
VARIABLES script, last
mvars == <<repo, arts, script, last>>
View == <<repo, arts, IF MaxArts > 0 THEN Len(script) ELSE 0>>

MCTags == {"v1.0", "v2.0rc1", "v1.0rc1", "vx", "release-3"}
MCTagsSmall == {"v1.0", "v1.0rc1", "vx"}
MCBr == {"main", "master", "dev"}
MCBrSmall == {"main", "dev"}

Full(i) == SubSeq(ToString(1111111 * i) \o "0000000000000000", 1, 16)
Date(i) == "date" \o ToString(i)
NextId == Len(repo.cm) + 1

MInit == /\ \E b \in (BrNames \ {"dev"}) : repo = Start(Full(1), Date(1), b) /\ script = <<[op |-> "start", name |-> b]>>
         /\ arts = <<>> /\ last = "start"
Rec(op, arg) == /\ Len(script) <= MaxOps
                /\ script' = Append(script, [op |-> op] @@ arg) /\ last' = op
Nm(n) == [name |-> n]
NoArg == [name |-> ""]
MNext ==
  \/ /\ Len(repo.cm) < MaxCommits /\ Commit(Full(NextId), Date(NextId)) /\ UNCHANGED arts /\ Rec("commit", NoArg)
  \/ /\ Len(repo.cm) < MaxCommits /\ UNCHANGED arts
     /\ \E b \in BrNames : Merge(b, Full(NextId), Date(NextId)) /\ Rec("merge", Nm(b))
  \/ /\ UNCHANGED arts
     /\ \/ \E t \in TagNames : \/ Tag(t) /\ Rec("tag", Nm(t))
                               \/ Untag(t) /\ Rec("untag", Nm(t))
        \/ \E b \in BrNames : \/ NewBranch(b) /\ Rec("branch", Nm(b))
                              \/ Switch(b) /\ Rec("switch", Nm(b))
        \/ \E c \in 1..Len(repo.cm) : Detach(c) /\ Rec("detach", [name |-> "", c |-> c])
        \/ \E k \in AbbrevLens : Abbrev(k) /\ Rec("abbrev", [name |-> "", c |-> k])
        \/ Edit /\ Rec("edit", NoArg)
        \/ Discard /\ Rec("discard", NoArg)
  \/ /\ Len(arts) < MaxArts /\ UNCHANGED repo
     /\ \/ Build /\ Rec("build", NoArg)
        \/ Archive /\ Rec("archive", NoArg)
        \/ \E a \in 1..Len(arts) : Rebuild(a) /\ Rec("rebuild", [name |-> "", c |-> a])
Spec == MInit /\ [][MNext]_mvars

----------------------------------------------------------------------------
V(r) == Versions(r, "pep440")
Vs(r) == {x.version : x \in V(r)}
(* some version, and never an error, in every reachable repository *)
Always == V(repo) # {} /\ \A v \in V(repo) : ~v.error /\ v.full = repo.cm[repo.at].full
(* the version tells the source states of a repository apart *)
Identifies ==
  \A c \in 1..Len(repo.cm), d \in BOOLEAN :
    LET other == [repo EXCEPT !.at = c, !.on = "", !.dirty = d]
    IN Vs(other) \cap Vs(repo) # {} => c = repo.at /\ d = repo.dirty
(* exactly a tag name without its v  <=>  clean, on a version tag *)
PlainIffReleased ==
  \A v \in V(repo) : (~Contains(v.version, "+")) <=> (~repo.dirty /\ \E t \in repo.tags : t[2] = repo.at /\ VersionTag(t[1]))
ReleasedIsTag == (~repo.dirty /\ \E t \in repo.tags : t[2] = repo.at /\ VersionTag(t[1]))
                 => \A v \in V(repo) : <<"v" \o v.version, repo.at>> \in repo.tags
DirtyIffMarked == \A v \in V(repo) : (v.dirty = "T" <=> repo.dirty) /\ (Contains(v.version, ".dirty") <=> repo.dirty)
UntaggedForm == Candidates(repo) = {} <=> \A v \in V(repo) : StartsWith(v.version, "0+untagged.")
OtherTagsIgnored == V([repo EXCEPT !.tags = {t \in @ : VersionTag(t[1])}]) = V(repo)
BranchFree == V([repo EXCEPT !.on = ""]) = V(repo)
(* only tags that HEAD contains matter *)
FutureTagsIgnored == V([repo EXCEPT !.tags = {t \in @ : t[2] \in Anc(repo.cm, repo.at)}]) = V(repo)
(* a commit never gets farther than one more from a tag it had *)
(* other working trees of the repository agree on what does not depend on theirs *)
ElsewhereAgrees == /\ V(Linked(repo)) = V([repo EXCEPT !.dirty = FALSE])
                   /\ {<<v.full, v.date>> : v \in V(Cloned(repo))} = {<<v.full, v.date>> : v \in V(repo)}
                   /\ ~repo.dirty /\ repo.abbrev = 7 => V(Cloned(repo)) = V(repo)
(* the length of abbreviated hashes shows only in them *)
AbbrevOnlyInHash == {<<p.tag, p.distance, p.long>> : p \in PiecesOf([repo EXCEPT !.abbrev = 7])} = {<<p.tag, p.distance, p.long>> : p \in PiecesOf(repo)}
                    /\ \A p \in PiecesOf(repo) : StartsWith(p.long, p.short) /\ Len(p.short) \in {7, repo.abbrev}
CommitStep ==
  [][last' = "commit" =>
       LET d == {p.distance : p \in PiecesOf(repo)} IN {p.distance : p \in PiecesOf(repo')} = {x + 1 : x \in d}]_mvars
(* the archive of a released commit reports the release *)
ArchiveAgrees == (~repo.dirty /\ \E t \in repo.tags : t[2] = repo.at /\ VersionTag(t[1]))
                 => {v.version : v \in ArchiveOf(repo)} \subseteq Vs(repo)
(* artefacts keep the version they were built with, whatever happens later *)
Frozen == [][\A a \in 1..Len(arts) : arts'[a] = arts[a]]_mvars
ArtsSound == \A a \in 1..Len(arts) : arts[a] # {} /\ \A v \in arts[a] : v.full \in {repo.cm[i].full : i \in 1..Len(repo.cm)}

EmitScripts == Emit => PrintT("SCRIPT " \o ToJson(script))
=============================================================================
