------------------------------ MODULE MCLayout ------------------------------
(***************************************************************************)
(* Where the version comes from when the package is not in a (working) git *)
(* checkout (V03): every combination of archive keywords, repository,      *)
(* behaviour of git, and directory names of a finite universe.             *)
(***************************************************************************)
EXTENDS Version, Json
CONSTANTS Rich, Emit
VARIABLE l

T(n) == [tag |-> TRUE, name |-> n]
R(n) == [tag |-> FALSE, name |-> n]
RefSets == {{}, {T("v1.0")}, {T("v1.0"), T("v1.0rc1")}, {T("v1.0rc1"), R("main")}, {R("main")}, {T("vx"), T("release-2"), R("main")},
            {R("v1.2"), R("main")}, {T("v2.0"), R("v3.0")}, {T("2.0"), T("v0.1b2")}, {R("HEAD -> main"), T("v1.0.post1")},
            {R("HEAD"), T("v2.0"), R("v1.x"), R("v0.9")}, {T("vx"), R("v1.2"), R("main")}, {T("v2.0-rc.1+b-2")}}
           \cup (IF Rich THEN {{T("v1.0rc1"), T("v1.0rc2"), T("v1.0")}, {R("HEAD"), R("release"), R("v9")}, {T("v"), T("v1")},
                               {R("HEAD -> main"), R("origin/main"), T("V1.0"), T("v10.0")}} ELSE {})
Kws == {<<>>} \cup {<<[refs |-> rs, full |-> "1076c978a8d3cfc70f408fe5974aa6c092c949ac", date |-> "2024-01-02T03:04:05+0100"]>> : rs \in RefSets}
Repos == {<<>>} \cup {<<[cm |-> <<[par |-> {}, full |-> "1111111111", date |-> "D1"], [par |-> {1}, full |-> "2222222222", date |-> "D2"]>>, br |-> {<<"main", 2>>},
                        tags |-> tg, on |-> o, at |-> 2, dirty |-> d, abbrev |-> 7]>> :
                      tg \in {{}, {<<"v0.7", 1>>}}, o \in {"main", ""}, d \in BOOLEAN}
Dirs == {<<a, b, c, d>> : a \in {"src0", "kalmankit-1.5", "kalmankit-2.0-rc1+x"}, b \in {"x", "kalmankit-2.5+1.gabc"}, c \in {"y", "kalmankit-3.5", "kalmankit", "Kalmankit-4"},
                          d \in {"z", "kalmankit-9"}}
Gits == {"works", "none", "broken", "flaky", "garbage"}
Layouts == [frozen : {<<>>}, kw : Kws, repo : Repos, git : Gits, dirs : Dirs]
Init == l \in {x \in Layouts : /\ (x.kw # <<>> => x.dirs[4] = "z" /\ x.git \in {"works", "none"})
                               /\ (x.repo = <<>> => x.git \in {"works", "none"})
                               /\ (x.repo # <<>> => x.dirs[4] = "z")}
Spec == Init /\ [][UNCHANGED l]_l
Res == Resolve(l)

NeverEmpty == Res # {} /\ \A v \in Res : v.version # ""
ErrorIffUnknown == \A v \in Res : v.error <=> v.version \in {"0+unknown", "unknown"}
KeywordsFirst == l.kw # <<>> => Res = Resolve([l EXCEPT !.repo = <<>>, !.dirs = <<"x">>, !.git = "none"])
NoPreRelease == l.kw # <<>> => \A v \in Res : ~\E f \in l.kw[1].refs : f.tag /\ VersionTag(f.name)
                                /\ StartsWith(v.version, NoPrefix(f.name)) /\ NoPrefix(f.name) # v.version
OnlyVersionTags == l.kw # <<>> => \A v \in Res : ~v.error => \E f \in l.kw[1].refs : f.name = "v" \o v.version
DirsLast == (l.kw = <<>> /\ (l.repo = <<>> \/ l.git \in {"none", "broken"})) => Res = {FromDirs(l.dirs)}
FarDirsIgnored == Res = Resolve([l EXCEPT !.dirs = SubSeq(@, 1, 3)])
EmitCases == Emit => PrintT("CASE " \o ToJson(l))
=============================================================================
