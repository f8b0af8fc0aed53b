------------------------------ MODULE RepoLib ------------------------------
(***************************************************************************)
(* A project under git, and what is built from it.  One action per thing a *)
(* developer does; arts holds, for every artefact built so far, the        *)
(* reports it may give: those of the moment it was built.                  *)
(***************************************************************************)
EXTENDS Version

VARIABLES repo, arts
rvars == <<repo, arts>>

Start(full, date, branch) ==
  [cm |-> <<[par |-> {}, full |-> full, date |-> date]>>, tags |-> {}, br |-> {<<branch, 1>>}, on |-> branch, at |-> 1, dirty |-> FALSE,
   abbrev |-> 7]
MoveBr(r, c) == IF r.on = "" THEN r.br ELSE {b \in r.br : b[1] # r.on} \cup {<<r.on, c>>}
BrAt(r, name) == (CHOOSE b \in r.br : b[1] = name)[2]
HasBr(r, name) == \E b \in r.br : b[1] = name

Commit(full, date) ==
  LET r == repo
      c == Len(r.cm) + 1
  IN repo' = [r EXCEPT !.cm = Append(@, [par |-> {r.at}, full |-> full, date |-> date]), !.br = MoveBr(r, c), !.at = c]
(* a chain of commits, one for each hash *)
RECURSIVE Chain(_, _, _)
Chain(r, fulls, date) ==
  IF fulls = <<>> THEN r
  ELSE LET c == Len(r.cm) + 1
       IN Chain([r EXCEPT !.cm = Append(@, [par |-> {r.at}, full |-> Head(fulls), date |-> date]), !.br = MoveBr(r, c), !.at = c],
                Tail(fulls), date)
Commits(fulls, date) == repo' = Chain(repo, fulls, date)
(* a merge commit of another branch that is not yet contained *)
CanMerge(name) == /\ repo.on # "" /\ HasBr(repo, name) /\ ~repo.dirty
                  /\ BrAt(repo, name) \notin Anc(repo.cm, repo.at)
Merge(name, full, date) ==
  /\ CanMerge(name)
  /\ LET r == repo
         c == Len(r.cm) + 1
     IN repo' = [r EXCEPT !.cm = Append(@, [par |-> {r.at, BrAt(r, name)}, full |-> full, date |-> date]),
                          !.br = MoveBr(r, c), !.at = c]
Tag(name) == /\ \A t \in repo.tags : t[1] # name
             /\ repo' = [repo EXCEPT !.tags = @ \cup {<<name, repo.at>>}]
Untag(name) == /\ \E t \in repo.tags : t[1] = name
               /\ repo' = [repo EXCEPT !.tags = {t \in @ : t[1] # name}]
NewBranch(name) == /\ ~HasBr(repo, name)
                   /\ repo' = [repo EXCEPT !.br = @ \cup {<<name, repo.at>>}, !.on = name]
Switch(name) == /\ HasBr(repo, name) /\ repo.on # name
                /\ repo' = [repo EXCEPT !.on = name, !.at = BrAt(repo, name)]
Detach(c) == /\ c \in 1..Len(repo.cm) /\ (repo.on # "" \/ repo.at # c)
             /\ repo' = [repo EXCEPT !.on = "", !.at = c]
Edit == ~repo.dirty /\ repo' = [repo EXCEPT !.dirty = TRUE]
Discard == repo.dirty /\ repo' = [repo EXCEPT !.dirty = FALSE]
(* how many digits git abbreviates hashes to *)
Abbrev(k) == repo.abbrev # k /\ repo' = [repo EXCEPT !.abbrev = k]
(* the same commits in another working tree: linked, cloned, a submodule; nothing is changed there *)
Linked(r) == [r EXCEPT !.dirty = FALSE, !.on = ""]
Cloned(r) == [Linked(r) EXCEPT !.abbrev = 7]
Untracked == UNCHANGED repo          \* files git does not track change nothing

(* artefacts: sdist and build freeze the version, an archive carries refs  *)
Build == arts' = Append(arts, Versions(repo, "pep440"))
Archive == arts' = Append(arts, ArchiveOf(repo))
(* building from an artefact keeps its version *)
Rebuild(a) == a \in 1..Len(arts) /\ arts' = Append(arts, arts[a])
=============================================================================
