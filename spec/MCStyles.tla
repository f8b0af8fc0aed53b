------------------------------ MODULE MCStyles ------------------------------
(***************************************************************************)
(* Every style on every repository state of a finite universe (V02): the   *)
(* laws a style promises, and the universe as cases for the code.          *)
(***************************************************************************)
EXTENDS Version, Json
CONSTANTS Rich, Emit
VARIABLE p

Tags == {"", "1.0", "0.3.1rc2", "1.2.post3", "1.0+local.1", "2.0.post", "2024.12.post11"} \cup
        (IF Rich THEN {"1!2.0a1", "10", "1.0.post0", "1.0-2-g1234567", "1.0-dirty"} ELSE {})
Dists == {0, 1, 12} \cup (IF Rich THEN {2, 99, 100, 1234} ELSE {})
Pcs == [tag : Tags, distance : Dists, short : {"1076c97", "abcdef0123"} \cup (IF Rich THEN {"0123456789"} ELSE {}),
        branch : {"master", "main", "", "feature/x"}, dirty : BOOLEAN, error : {"", "unable to parse"},
        long : {"1076c978a8d3cfc70f408fe5974aa6c092c949ac"}, date : {"2024-01-02T03:04:05+0100"}]
Init == p \in Pcs
Spec == Init /\ [][UNCHANGED p]_p
Good == p.error = ""

CleanTagExact == (Good /\ p.tag # "" /\ ~Moved(p)) => \A s \in Styles \ {"git-describe-long"} : Rendered(p, s) = p.tag
LongAlwaysHash == Good => Contains(Rendered(p, "git-describe-long"), p.short)
Pluses(s) == {i \in 1..Len(s) : Sub1(s, i) = "+"}
OneLocal == Good => \A s \in {x \in Styles : StartsWith(x, "pep440")} : Cardinality(Pluses(Rendered(p, s))) <= 1
StartsWithTag == (Good /\ p.tag # "") => \A s \in Styles \ {"pep440-pre"} : StartsWith(Rendered(p, s), p.tag)
(* which facts a style carries: those of pieces with equal versions agree *)
Same(q, s) == Rendered(q, s) = Rendered(p, s)
Others == {q \in Pcs : q.error = "" /\ q.tag = p.tag}
CarriesState == Good => \A q \in Others :
  /\ \A s \in {"pep440", "pep440-branch", "pep440-post-branch"} :
       Same(q, s) => q.distance = p.distance /\ q.dirty = p.dirty /\ (Moved(p) \/ p.tag = "" => q.short = p.short)
  /\ Same(q, "pep440-post") => q.distance = p.distance /\ q.dirty = p.dirty /\ (Moved(p) \/ p.tag = "" => q.short = p.short)
  /\ Same(q, "pep440-old") => q.distance = p.distance /\ q.dirty = p.dirty
  /\ Same(q, "pep440-pre") => q.distance = p.distance
  /\ Same(q, "git-describe") => q.dirty = p.dirty /\ (p.tag = "" \/ q.distance = p.distance)
  /\ Same(q, "git-describe-long") => q.dirty = p.dirty /\ q.short = p.short /\ (p.tag = "" \/ q.distance = p.distance)
  /\ \A s \in {"pep440-branch", "pep440-post-branch"} :
       (Same(q, s) /\ (Moved(p) \/ p.tag = "")) => ((q.branch = "master") <=> (p.branch = "master"))
ErrorUnknown == ~Good => \A s \in Styles : Render(p, s) = Report("unknown", p.long, "-", TRUE, "-")
EmitCases == Emit => PrintT("CASE " \o ToJson(p))
=============================================================================
