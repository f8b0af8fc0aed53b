"""Writes properties.jsonl (kept so the list can be edited in one readable place)."""
import json, pathlib
STD="src/kalmankit/standard.py"; EXT="src/kalmankit/extended.py"; UT="src/kalmankit/utils.py"; VER="src/kalmankit/_version.py"; INI="src/kalmankit/__init__.py"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
gl=("kalman_gains","append-only log of the gains computed by updates",STD+", "+EXT)
p("K01","Filtering returns the exact Gaussian posterior at every step",
 "For every well-posed linear-Gaussian model (dimensionally consistent, possibly time-varying, possibly with control input) and every finite observation series, the standard filter returns for each step k the mean and covariance of the state given the model and exactly the observations up to and including k, up to floating-point rounding. The initial mean and covariance describe the state before the first transition, and entry k of every per-step parameter (transition, control matrix, control, process noise, observation matrix, measurement noise) is the one used at step k.",
 ["inputs","configurations"],"all state/observation/control dimensions, series lengths, time-varying matrices, noise covariances and data",
 "The tests compare one scalar constant model and one 2x2 five-step model with stored or pykalman numbers; other dimensions (non-square H, m>n), singular A or Q, long series and mixed controls are never run.",
 [STD],[("predict/update feedback loop","KalmanFilter.filter"),("time update","KalmanFilter.predict"),("measurement update","KalmanFilter.update")],
 [("xk, Pk","running mean/covariance of the loop","KalmanFilter.filter"),gl],["filter() return value"])
p("K02","Smoothing returns the exact posterior given the whole series",
 "For every well-posed linear-Gaussian model whose predicted covariances are nonsingular and every finite non-empty observation series, the standard smoother returns for each step the mean and covariance of the state given the model and all the observations, up to floating-point rounding. This includes models with time-varying parameters and with control input.",
 ["inputs","configurations"],"all dimensions, lengths, time-varying parameters, controls and data",
 "Three fixed series are smoothed in the tests, with at most five 2-d steps and control matrix equal to the identity.",
 [STD],[("Rauch-Tung-Striebel backward pass","KalmanFilter.smooth"),("index k+1 parameters for the transition out of k","KalmanFilter.smooth")],
 [("xk_smooth, Pk_smooth","backward recursion state","KalmanFilter.smooth")],["smooth() return value"])
p("K03","A single prediction step obeys the linear-Gaussian time update",
 "A prediction returns the transitioned mean A x, plus B u when both a control matrix and a control vector are supplied, together with the covariance A P A^T + Q. Supplying None, or an array consisting only of NaN, for the control matrix or the control vector leaves the control term out. The call changes neither its arguments nor the filter object.",
 ["inputs"],"all finite matrices and vectors of consistent shape, all combinations of present/absent control",
 "One test checks one 2x2 covariance; the mean, non-square control matrices and None are never exercised.",
 [STD,UT],[("time update","KalmanFilter.predict"),("control-absence test","is_nan_all")],[],["predict() return value"])
p("K04","A single update step is the optimal measurement correction",
 "An update returns the mean and covariance of the prior Gaussian conditioned on the given observation z = H x + r with r ~ N(0, R), for any number of observed components including more than the state has, and for scalar observations. It appends exactly the optimal gain P H^T (H P H^T + R)^-1 to the filter's list of computed gains and changes neither its arguments nor any other observable part of the filter.",
 ["inputs"],"all finite priors, observation matrices, noise covariances with nonsingular innovation covariance, and observations; both filter classes",
 "update() is never called directly by a test; only gains of scalar/2x2 systems are computed, and gains are never compared.",
 [STD,EXT],[("gain by linear solve","update"),("covariance update (I-KH)P","update")],[gl],["update() return value","kalman_gains"])
p("K05","Control acts exactly at its own step, and absent control acts not at all",
 "Omitting the control input of a run, omitting the control matrix at construction, or giving an all-NaN control vector for some step yields exactly the estimates of the same model with zero control there, in filtering and in smoothing, whatever the numeric types of the other arrays. A present control shifts the predicted state of its own step by its control matrix times the control vector and influences no earlier filtered estimate. Controls never change any covariance or gain.",
 ["inputs","configurations"],"all patterns of present/absent control per run, per step and per model; all dtypes of observations and model matrices",
 "Tests use all-present or all-absent control and float data only; per-step absence, integer data and control combined with smoothing under a non-identity control matrix are never run.",
 [STD,UT],[("None to NaN placeholder","check_none_and_broadcast"),("NaN test","predict"),("control index in the backward pass","KalmanFilter.smooth")],
 [("B","control matrices or NaN placeholder","KalmanFilter.__init__")],["filter()/smooth() return values","kalman_gains"])
p("K06","The gain log holds one optimal gain per processed observation, in order",
 "Over the whole life of a filter object of either kind, its list of computed gains contains exactly one entry per successfully processed observation (one per direct update, one per step of a filtering run, one per step of a smoothing run), in processing order, and each entry is the optimal gain of that step. A freshly constructed filter has an empty list, earlier entries never change, and predictions, corrections that fail (whatever makes them fail) and the backward smoothing pass add nothing.",
 ["histories","inputs"],"all sequences of filter/smooth/predict/update calls, including runs that fail part-way for any cause (singular matrices, observations that do not fit, callbacks that raise), on any number of objects",
 "No test reads the gain list.",
 [STD,EXT],[("append in update","update"),("per-instance list","__init__")],[gl],["kalman_gains after every call"])
p("K07","Results depend only on model and data, never on earlier calls",
 "For both filters, every call returns what a freshly constructed filter with the same model would return for the same arguments, whatever sequence of filtering, smoothing, prediction and update calls (successful or failing) preceded it. No call modifies the arrays or lists it was given or those the filter was built from, and arrays returned earlier are neither altered by later calls nor, when the caller overwrites them, able to alter later results.",
 ["histories","inputs"],"all call sequences on one object and all data",
 "Every test constructs a filter, calls it once or twice and never compares repeated calls or the inputs afterwards.",
 [STD,EXT],[("locals instead of attributes for the running estimate","filter"),("fresh result arrays","filter, smooth")],[gl],["return values","argument arrays after the call"])
p("K08","Filtering is causal: estimates never depend on later data or parameters",
 "For both filters, filtering the first t observations returns exactly the first t estimates of filtering the whole series, for every t. Changing observations, controls or model parameters of later steps leaves all earlier filtered means, covariances and gains unchanged, even if the later values are extreme or not finite.",
 ["inputs","histories"],"all series, all cut points, all changes to the future",
 "No test filters a prefix or perturbs the future.",
 [STD,EXT],[("single forward loop","filter")],[],["filter() return value"])
p("K09","A run can be split anywhere and continued, or driven step by step",
 "Filtering a series in one run, or in consecutive pieces where each piece starts from the last mean and covariance returned for the previous one, or by calling predict and update alternately by hand, gives the same means, covariances and gains for both filters.",
 ["inputs","histories"],"all series, all partitions into pieces, all parameters",
 "No test resumes a run or drives predict/update by hand.",
 [STD,EXT],[("Markov loop state (xk, Pk)","filter"),("public predict/update","predict, update")],[("xk, Pk","initial condition","__init__")],["filter(), predict(), update() return values"])
p("K10","Covariances stay valid and information never increases uncertainty",
 "Every covariance returned by either filter or smoother for a well-posed model is symmetric and positive semidefinite up to rounding. An update never increases the covariance of its prior, smoothing never increases the covariance of a linear model's filtered estimate (in the positive-semidefinite order), and the smoothed estimate of the final step equals the filtered one.",
 ["inputs"],"all well-posed models and series",
 "Tests compare a few covariance values; they never check symmetry, definiteness or ordering.",
 [STD,EXT],[("covariance update","update"),("RTS covariance recursion","smooth")],[],["filter()/smooth() covariances"])
p("K11","Linear estimates are affine in the data; covariances ignore the data",
 "For the standard filter and smoother with a fixed model, covariances and gains are the same for every observation series and every control series. Means are jointly affine in initial mean, observations and controls: for any weights summing to one, the weighted combination of two such inputs gives the weighted combination of the two outputs.",
 ["inputs"],"all pairs of data sets and all weights for all models, including outliers and repeated values",
 "Needs pairs of runs; the tests compare single runs with constants.",
 [STD],[("no data-dependent branches in the recursion","filter, update, smooth")],[],["filter()/smooth() return values","kalman_gains"])
p("K12","Estimates transform consistently under changes of coordinates and units",
 "Expressing the same linear model in another state basis, in other units (however different in scale per component), with observed components reordered or invertibly recombined, or with control components recombined, yields the correspondingly transformed means, covariances and gains from the standard filter and smoother.",
 ["inputs","configurations"],"all invertible state, observation and control transformations, including scalings by many orders of magnitude",
 "Needs pairs of runs in different coordinates; tests use unit-scale data only, so scale-dependent shortcuts are invisible.",
 [STD],[("basis-free formulas","predict, update, smooth")],[],["filter()/smooth() return values","kalman_gains"])
p("K13","Observed components combine consistently",
 "For the standard filter, processing components with uncorrelated noise together or one after another (each later one with an identity, noise-free transition) gives the same final estimate, and an observed component that does not depend on the state and has noise uncorrelated with the rest changes no estimate. Two observations of the same quantity with equal independent noise act as one observation of their average with half the noise covariance, and statistically independent blocks of a model never influence each other.",
 ["inputs","configurations"],"all models with block-diagonal noise, all splits of components and blocks",
 "No test has more than two observed components or compares joint with sequential processing.",
 [STD],[("innovation covariance and gain","update")],[],["filter() return value"])
p("K14","Results do not depend on how the arrays are represented",
 "For both filters a run returns one mean of length n and one n-by-n covariance per observation as floating-point arrays, including for series of length one. The numeric results are the same (at the precision of the given data) for integer, single or double precision input, contiguous, strided, transposed-in-memory or read-only arrays, observation and control lists instead of arrays, and one-dimensional systems given with scalar per-step noises and observations instead of 1-by-1 matrices.",
 ["inputs","configurations"],"all dtypes, memory layouts and admissible shapes of every argument",
 "Tests use contiguous float64 data, and integers only for a 1x1 initial state.",
 [STD,EXT,UT],[("float result allocation","filter, smooth"),("float NaN placeholder","check_none_and_broadcast"),("scalar observation promotion","update")],[],["shape, dtype and values of filter()/smooth() results"])
p("K15","The model in force is the one the filter's attributes hold",
 "For both filters, when the owner of a filter object replaces model attributes between calls (transition, control, observation and noise arrays, initial mean and covariance, or the extended filter's functions, by ones of the same shapes) or overwrites the contents of such arrays in place, every later call returns what a new filter built with the new model would return. The gains logged before stay as they are, and emptying the list of computed gains between calls changes no estimate.",
 ["histories","inputs"],"all sequences of calls and owner changes on one object, all models of the same shapes",
 "No test changes a filter object after its construction; restarting a run from the last estimate by assigning xk and Pk is never exercised.",
 [STD,EXT],[("attributes read when a call starts","filter, smooth")],[("A, B, H, Q, R, xk, Pk, f, h, jacobian_A, jacobian_H","the model","__init__"),gl],["return values","kalman_gains"])
p("K16","Filter objects are independent of each other",
 "Any interleaving of calls on several filter objects of either kind, whether they share model arrays or callbacks or not and whether the calls come from one thread or from several, gives each object exactly the results and the gain list it would have on its own.",
 ["histories","schedules"],"all interleavings of calls over several objects, at call granularity and at thread preemption points",
 "Tests never hold two live filters at once.",
 [STD,EXT],[("no module- or class-level mutable state","KalmanFilter, ExtendedKalmanFilter")],[gl],["return values and kalman_gains per object"])
p("K17","Undefined corrections are reported, not fabricated",
 "When a correction is undefined because the innovation covariance of a step is exactly zero (noise-free observation of an exactly known quantity), filtering, smoothing or updating fails with a linear-algebra error instead of returning estimates, and smoothing does so when a predicted covariance it must invert is exactly zero. The failed step records no gain, and the filter remains usable with correct results afterwards.",
 ["inputs","fault_sequences"],"all models and steps at which the singularity occurs, all later uses of the object",
 "No test contains a singular step.",
 [STD,EXT],[("exact solve instead of a pseudo-inverse","update, smooth")],[gl],["exception type","kalman_gains"])
p("E01","The extended filter linearises at the right points for every model",
 "For every differentiable transition and observation model, each step of the extended filter predicts the mean with f at (previous posterior mean, this step's control), propagates covariance with the Jacobian of f at that same point plus that step's process noise, and corrects with the innovation z - h(predicted mean) and the Jacobian of h at the predicted mean. The returned means, covariances and recorded gains are the result of exactly this recursion up to rounding.",
 ["inputs","configurations"],"all nonlinear models, controls, dimensions, series",
 "All EKF tests use linear models, for which the point of linearisation does not matter.",
 [EXT],[("extended recursion","ExtendedKalmanFilter.filter"),("time update","ExtendedKalmanFilter.predict"),("measurement update","ExtendedKalmanFilter.update")],[gl],["filter(), predict(), update() return values","kalman_gains"])
p("E02","The extended smoother is the RTS recursion linearised at the filtered means",
 "For every differentiable model with nonsingular predicted covariances, the extended smoother returns, from the last step backwards, the filtered estimate corrected by the RTS gain built from the Jacobian of f at the filtered mean and the next step's control, with predicted mean f at that same point and the next step's process noise. The last smoothed estimate is the last filtered one.",
 ["inputs","configurations"],"all nonlinear models, controls, dimensions, series",
 "One EKF smoothing test exists and it is linear.",
 [EXT],[("extended backward pass","ExtendedKalmanFilter.smooth")],[],["smooth() return value"])
p("E03","On affine models the extended filter equals the standard filter",
 "When f and h are linear or affine with constant or control-dependent Jacobians, the extended filter and smoother return the same means, covariances and gains as the standard filter and smoother on the equivalent matrices (affine offsets expressed as control input or shifted observations), for every series and control.",
 ["inputs","configurations"],"all affine models, controls, dimensions, series",
 "One scalar and one 2-d example are compared with stored or pykalman numbers, never the two classes with each other.",
 [EXT,STD],[("shared recursion","filter, smooth of both classes")],[],["filter()/smooth() return values of both classes"])
p("E04","User callbacks are evaluated only at the right states and controls",
 "During extended filtering and smoothing, f and its Jacobian are only ever evaluated at a posterior mean paired with the control of the step that follows it (the initial mean with the first control), and h and its Jacobian only at predicted means. When no control is given, the control passed to the callbacks is an all-NaN floating-point array shaped like one observation, whatever the type of the observations.",
 ["inputs","histories"],"all models, series, control patterns; all filter/smooth histories",
 "Test callbacks ignore the evaluation point or depend on it linearly, so a wrong point or wrong control pairing is invisible.",
 [EXT,UT],[("call sites of f, jacobian_A, h, jacobian_H","predict, update, smooth"),("None to NaN placeholder","check_none_and_broadcast")],[],["arguments received by the callbacks"])
p("U01","Optional arrays become all-NaN placeholders recognised as absent",
 "The broadcasting helper returns a given array unchanged, and for None a floating-point array of exactly the reference's shape filled with NaN, for every shape and numeric type of the reference. The all-NaN test is true exactly when every element is NaN (for arrays of any shape and for scalars), so a placeholder is always recognised as absent and no array with a number in it ever is.",
 ["inputs"],"all shapes, dtypes and NaN patterns",
 "One float 2x2 reference and four small arrays are tested, and the placeholder test compares with a scalar.",
 [UT],[("placeholder creation","check_none_and_broadcast"),("reduction","is_nan_all")],[],["return values"])
p("V01","The reported version identifies the checked-out source state",
 "In a git checkout the package version is the nearest version tag reachable from HEAD without its 'v' prefix, followed by +DISTANCE.gHASH when commits follow the tag or the tree has uncommitted changes (with '.' in place of the '+' when the tag already has a local part) and by .dirty when it has; with no version tag it is 0+untagged.COMMITS.gHASH with the same .dirty suffix. Tags not of the form v<digit>... are ignored, and full revision, dirty flag and commit date match HEAD, on any branch or detached, whatever GIT_DIR says.",
 ["histories","configurations"],"all sequences of commits, tags, edits, branch switches and detached checkouts",
 "No test covers versions; the repository has no tag, so only one shape of version string is ever produced.",
 [VER,INI],[("git describe parsing","git_pieces_from_vcs"),("rendering","render_pep440")],[("pieces","parsed repository state","_version.py")],["get_versions(), kalmankit.__version__"])
p("V02","Every version style renders every repository state as documented",
 "For every supported version style and every combination of tag (plain, post-release, already local), distance, hash, branch, dirtiness and error, rendering yields the documented form of that style: the exact tag for a clean tagged commit, the documented distance, hash, branch and dirty markers otherwise, and 'unknown' with the error when parsing failed. Unknown styles are rejected.",
 ["inputs","configurations"],"all styles times all repository states",
 "No test covers rendering; only one style and one state occur in development.",
 [VER,"versioneer.py"],[("render functions","render_pep440, render_pep440_branch, render_pep440_pre, render_pep440_post, render_pep440_post_branch, render_pep440_old, render_git_describe, render_git_describe_long")],[],["render() return value"])
p("V03","Outside git the version falls back without ever failing",
 "Expanded archive keywords decide the version first, wherever the archive is unpacked: the version tag among the archived refs, a plain release sorting before its pre-releases, with revision and date, else 0+unknown with the revision. Without keywords and without a usable git checkout it comes from a directory named kalmankit-VERSION that is the source root or one of its two nearest parents, and otherwise is 0+unknown with an error recorded. The package always imports, also when git is not installed or any of its commands fails.",
 ["configurations","fault_sequences"],"all installation layouts, ref decorations, missing or failing git",
 "Tests always run from the git checkout.",
 [VER,INI],[("fallback chain","get_versions"),("keyword parsing","git_versions_from_keywords"),("directory name","versions_from_parentdir")],[],["get_versions(), import kalmankit"])
p("V04","Build-time and run-time version agree, and a build freezes the version",
 "For every repository state the version computed by the packaging tool equals the one the package itself reports from the same tree. A distribution built from that tree reports the same version from any directory without git, and building does not alter the source tree's own version file.",
 ["histories","configurations"],"all repository states at build time, all places the built package is used from",
 "No test builds the package.",
 ["versioneer.py",VER,"setup.py"],[("versioneer.get_versions","versioneer.py"),("version file freezing","versioneer.py cmdclass")],[],["setup.py --version","__version__ of the built package"])
out=pathlib.Path(__file__).resolve().parents[1]/"properties.jsonl"
out.write_text("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
