------------------------------ MODULE Version ------------------------------
(***************************************************************************)
(* How the package's version is derived: from the state of a git           *)
(* repository, from the keywords of a git archive, from the name of a      *)
(* parent directory.  Pure operators; the machines are in RepoLib (what a  *)
(* developer does to a repository), MCStyles and MCLayout.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

----------------------------------------------------------------------------
(* Strings *)
Sub1(s, i) == SubSeq(s, i, i)
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Contains(s, p) == \E i \in 1..(Len(s) - Len(p) + 1) : SubSeq(s, i, i + Len(p) - 1) = p
IndexOf(s, p) == CHOOSE i \in 1..(Len(s) - Len(p) + 1) :
                   /\ SubSeq(s, i, i + Len(p) - 1) = p
                   /\ \A j \in 1..(i - 1) : SubSeq(s, j, j + Len(p) - 1) # p
Digits == "0123456789"
IsDigit(ch) == \E i \in 1..10 : Sub1(Digits, i) = ch
DigitVal(ch) == (CHOOSE i \in 1..10 : Sub1(Digits, i) = ch) - 1
RECURSIVE NatOf(_)
NatOf(s) == IF s = "" THEN 0 ELSE 10 * NatOf(SubSeq(s, 1, Len(s) - 1)) + DigitVal(Sub1(s, Len(s)))
D(n) == ToString(n)

----------------------------------------------------------------------------
(* Rendering.  Pieces: tag ("" when there is none; without its prefix),    *)
(* distance, short, branch ("" when there is none), dirty, error.          *)
Styles == {"pep440", "pep440-branch", "pep440-pre", "pep440-post", "pep440-post-branch", "pep440-old",
           "git-describe", "git-describe-long"}
PlusOrDot(tag) == IF Contains(tag, "+") THEN "." ELSE "+"
DirtyDot(p) == IF p.dirty THEN ".dirty" ELSE ""
DirtyDash(p) == IF p.dirty THEN "-dirty" ELSE ""
DirtyDev(p) == IF p.dirty THEN ".dev0" ELSE ""
BranchDev(p) == IF p.branch # "master" THEN ".dev0" ELSE ""
Moved(p) == p.distance > 0 \/ p.dirty
HasPost(tag) == Contains(tag, ".post")
PostBase(tag) == SubSeq(tag, 1, IndexOf(tag, ".post") - 1)
PostNum(tag) == NatOf(SubSeq(tag, IndexOf(tag, ".post") + 5, Len(tag)))

(* TAG[+DISTANCE.gHEX[.dirty]], 0+untagged.DISTANCE.gHEX[.dirty] *)
Pep440(p) ==
  IF p.tag = "" THEN "0+untagged." \o D(p.distance) \o ".g" \o p.short \o DirtyDot(p)
  ELSE IF ~Moved(p) THEN p.tag
  ELSE p.tag \o PlusOrDot(p.tag) \o D(p.distance) \o ".g" \o p.short \o DirtyDot(p)
(* TAG[[.dev0]+DISTANCE.gHEX[.dirty]]: .dev0 off the master branch *)
Pep440Branch(p) ==
  IF p.tag = "" THEN "0" \o BranchDev(p) \o "+untagged." \o D(p.distance) \o ".g" \o p.short \o DirtyDot(p)
  ELSE IF ~Moved(p) THEN p.tag
  ELSE p.tag \o BranchDev(p) \o PlusOrDot(p.tag) \o D(p.distance) \o ".g" \o p.short \o DirtyDot(p)
(* TAG[.postN.devDISTANCE]: the next post release *)
Pep440Pre(p) ==
  IF p.tag = "" THEN "0.post0.dev" \o D(p.distance)
  ELSE IF p.distance = 0 THEN p.tag
  ELSE IF HasPost(p.tag) THEN PostBase(p.tag) \o ".post" \o D(PostNum(p.tag) + 1) \o ".dev" \o D(p.distance)
  ELSE p.tag \o ".post0.dev" \o D(p.distance)
(* TAG[.postDISTANCE[.dev0]+gHEX]: .dev0 means dirty *)
Pep440Post(p) ==
  IF p.tag = "" THEN "0.post" \o D(p.distance) \o DirtyDev(p) \o "+g" \o p.short
  ELSE IF ~Moved(p) THEN p.tag
  ELSE p.tag \o ".post" \o D(p.distance) \o DirtyDev(p) \o PlusOrDot(p.tag) \o "g" \o p.short
(* TAG[.postDISTANCE[.dev0]+gHEX[.dirty]]: .dev0 off the master branch *)
Pep440PostBranch(p) ==
  IF p.tag = "" THEN "0.post" \o D(p.distance) \o BranchDev(p) \o "+g" \o p.short \o DirtyDot(p)
  ELSE IF ~Moved(p) THEN p.tag
  ELSE p.tag \o ".post" \o D(p.distance) \o BranchDev(p) \o PlusOrDot(p.tag) \o "g" \o p.short \o DirtyDot(p)
(* TAG[.postDISTANCE[.dev0]] *)
Pep440Old(p) ==
  IF p.tag = "" THEN "0.post" \o D(p.distance) \o DirtyDev(p)
  ELSE IF ~Moved(p) THEN p.tag
  ELSE p.tag \o ".post" \o D(p.distance) \o DirtyDev(p)
(* TAG[-DISTANCE-gHEX][-dirty], HEX[-dirty] *)
Describe(p) ==
  IF p.tag = "" THEN p.short \o DirtyDash(p)
  ELSE IF p.distance = 0 THEN p.tag \o DirtyDash(p)
  ELSE p.tag \o "-" \o D(p.distance) \o "-g" \o p.short \o DirtyDash(p)
DescribeLong(p) ==
  IF p.tag = "" THEN p.short \o DirtyDash(p)
  ELSE p.tag \o "-" \o D(p.distance) \o "-g" \o p.short \o DirtyDash(p)

Rendered(p, style) ==
  CASE style \in {"pep440", "", "default"} -> Pep440(p)
    [] style = "pep440-branch" -> Pep440Branch(p)
    [] style = "pep440-pre" -> Pep440Pre(p)
    [] style = "pep440-post" -> Pep440Post(p)
    [] style = "pep440-post-branch" -> Pep440PostBranch(p)
    [] style = "pep440-old" -> Pep440Old(p)
    [] style = "git-describe" -> Describe(p)
    [] style = "git-describe-long" -> DescribeLong(p)

(* A version report: "-" stands for None.  full and date travel with the  *)
(* pieces; error is TRUE when one is recorded.                             *)
Report(v, full, dirty, error, date) == [version |-> v, full |-> full, dirty |-> dirty, error |-> error, date |-> date]
B(b) == IF b THEN "T" ELSE "F"
Render(p, style) ==
  IF p.error # "" THEN Report("unknown", p.long, "-", TRUE, "-")
  ELSE Report(Rendered(p, style), p.long, B(p.dirty), FALSE, p.date)

----------------------------------------------------------------------------
(* Repositories.  cm: commits in order, each with its parents (a set of    *)
(* earlier commits), full hash and date; tags: set of <<name, commit>>;    *)
(* br: set of <<name, commit>>; on: current branch, "" when detached;      *)
(* at: HEAD; dirty: uncommitted changes to tracked files; abbrev: digits   *)
(* of an abbreviated hash.                                                 *)
RECURSIVE Anc(_, _)
Anc(cm, c) == {c} \cup UNION {Anc(cm, q) : q \in cm[c].par}
VersionTag(name) == Len(name) >= 2 /\ Sub1(name, 1) = "v" /\ IsDigit(Sub1(name, 2))
NoPrefix(name) == SubSeq(name, 2, Len(name))
Candidates(r) == {t \in r.tags : VersionTag(t[1]) /\ t[2] \in Anc(r.cm, r.at)}
Distance(r, t) == Cardinality(Anc(r.cm, r.at) \ Anc(r.cm, t[2]))
Nearest(r) == {t \in Candidates(r) : \A s \in Candidates(r) : Distance(r, t) <= Distance(r, s)}
(* detached: master if it contains HEAD, else some branch that does *)
Branches(r) ==
  IF r.on # "" THEN {r.on}
  ELSE LET bs == {b[1] : b \in {x \in r.br : r.at \in Anc(r.cm, x[2])}}
       IN IF "master" \in bs THEN {"master"} ELSE IF bs = {} THEN {""} ELSE bs
Short(full, k) == SubSeq(full, 1, k)
(* without a version tag seven digits are as good as the repository's length *)
Shorts(r) == {Short(r.cm[r.at].full, k) : k \in {r.abbrev} \cup (IF Nearest(r) = {} THEN {7} ELSE {})}
PiecesOf(r) ==
  LET ts == IF Nearest(r) = {} THEN {[tag |-> "", distance |-> Cardinality(Anc(r.cm, r.at))]}
            ELSE {[tag |-> NoPrefix(t[1]), distance |-> Distance(r, t)] : t \in Nearest(r)}
  IN {[long |-> r.cm[r.at].full, short |-> h, date |-> r.cm[r.at].date, dirty |-> r.dirty, error |-> "",
       tag |-> t.tag, distance |-> t.distance, branch |-> b] : t \in ts, b \in Branches(r), h \in Shorts(r)}
(* the permitted reports: more than one where tags tie *)
Versions(r, style) == {Render(p, style) : p \in PiecesOf(r)}

----------------------------------------------------------------------------
(* Archives: refs is the set of [tag, name] decorating the archived commit *)
(* (tag: whether it is marked as a tag).  A version tag whose plain        *)
(* release is among them is not chosen.                                    *)
HasDigit(s) == \E i \in 1..Len(s) : IsDigit(Sub1(s, i))
ArchiveTags(refs) ==
  LET marked == {f.name : f \in {x \in refs : x.tag}}
      names == IF marked = {} THEN {f.name : f \in refs} ELSE marked
  IN {t \in names : VersionTag(t)}
FromKeywords(refs, full, date) ==
  LET ts == ArchiveTags(refs)
      best == {t \in ts : ~\E s \in ts : s # t /\ StartsWith(t, s)}
  IN IF ts = {} THEN {Report("0+unknown", full, "F", TRUE, "-")}
     ELSE {Report(NoPrefix(t), full, "F", FALSE, date) : t \in best}
DecorationsOf(r) ==
  {[tag |-> TRUE, name |-> t[1]] : t \in {x \in r.tags : x[2] = r.at}}
  \cup {[tag |-> FALSE, name |-> b[1]] : b \in {x \in r.br : x[2] = r.at}}
ArchiveOf(r) == FromKeywords(DecorationsOf(r), r.cm[r.at].full, r.cm[r.at].date)

(* Directory names: root, its parent, its grandparent *)
Prefix == "kalmankit-"
FromDirs(dirs) ==
  LET ix == {i \in 1..(IF Len(dirs) < 3 THEN Len(dirs) ELSE 3) : StartsWith(dirs[i], Prefix)}
  IN IF ix = {} THEN Report("0+unknown", "-", "-", TRUE, "-")
     ELSE LET i == CHOOSE j \in ix : \A l \in ix : j <= l
          IN Report(SubSeq(dirs[i], Len(Prefix) + 1, Len(dirs[i])), "-", "F", FALSE, "-")

(* A layout: frozen version (a report, or <<>>), archive keywords (a record *)
(* or <<>>), the repository there (or <<>>), what git does, directories.   *)
Resolve(l) ==
  IF l.frozen # <<>> THEN {l.frozen[1]}
  ELSE IF l.kw # <<>> THEN FromKeywords(l.kw[1].refs, l.kw[1].full, l.kw[1].date)
  ELSE CASE l.git = "works" /\ l.repo # <<>> -> Versions(l.repo[1], "pep440")
         [] l.git = "garbage" /\ l.repo # <<>> -> {Report("unknown", l.repo[1].cm[l.repo[1].at].full, "-", TRUE, "-")}
         [] l.git = "flaky" /\ l.repo # <<>> -> Versions(l.repo[1], "pep440") \cup {FromDirs(l.dirs)}
         [] OTHER -> {FromDirs(l.dirs)}
=============================================================================
