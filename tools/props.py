import json
P=[]
def p(id,title,st,over,text,why,files,mech,observe=None,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
DP="src/dorm_prince/dp5/"; RA="src/radau/"; IN="src/ode/integrator.rs"
p("C01","Every integration terminates with a truthful return code",
"For every right-hand side, including one that returns NaN or infinity at any of its evaluations, every call to step or integrate returns after finitely many evaluations and does not panic. The return code is Success exactly when the final time has been reached; otherwise it is one of the failure codes, the integrator stays at its last accepted state, and no state with a non-finite component is ever accepted. On problems whose solution is smooth over the whole time span the integration succeeds. An empty time span succeeds immediately with only the initial state.",
["inputs","fault_sequences","configurations"],"all placements of bad right-hand-side answers in an integration, all tolerances, step options and directions",
"The tests run four well-behaved problems to the end and never look at the return code; a loop that never ends needs a fault at a particular evaluation.",
[DP+"algorithm.rs",DP+"prepare.rs",RA+"algorithm.rs",RA+"newton.rs",RA+"dec.rs",IN],
[("minimum step check and attempt loop",DP+"algorithm.rs step"),("attempt loop, MaxIters, DtLessThanMin, SingularMatrix",RA+"algorithm.rs step")],["retcode, t, u after every step call"])
p("C02","Time advances strictly from the start to the final time",
"The recorded times start at the initial time and move strictly and only towards the final time, whichever side of the initial time it lies on; no recorded time lies beyond the final time. When an integration succeeds, its last recorded time is the final time up to rounding.",
["inputs","configurations","histories"],"all problems, spans (forward, backward, crossing zero, shifted), tolerances, initial steps, step limits and rejection histories",
"Tests integrate forward from 0 only and do not check the times.",
[DP+"algorithm.rs",DP+"prepare.rs",RA+"algorithm.rs",RA+"step_size_control.rs",IN],
[("clipping of the last step",DP+"algorithm.rs, "+RA+"algorithm.rs, "+RA+"step_size_control.rs"),("direction of integration",IN+" build")],["sol.ts"])
p("C03","Every DormandPrince5 step is the Dormand-Prince 5(4) step",
"Each state accepted by DormandPrince5 is, up to rounding, the fifth-order Dormand-Prince solution computed from the previously accepted state (after any callback) with a step equal to the difference of the two times. This holds for every component, dimension, direction, time-dependent right-hand side and every history of earlier rejections.",
["inputs","histories","configurations"],"all right-hand sides, dimensions, step sizes and accept/reject histories",
"test_ho allows a 1% relative error on one oscillator, so a wrong coefficient or a stale stage passes.",
[DP+"stages.rs",DP+"constants.rs",DP+"prepare.rs",DP+"algorithm.rs"],
[("stages and tableau",DP+"stages.rs compute_stages"),("first-same-as-last reuse",DP+"prepare.rs prepare_next_step")],["t, u before and after every step"])
p("C04","Every Radau5 step solves the Radau IIA collocation equations",
"Each state accepted by Radau5 is the solution of the three-stage Radau IIA collocation equations from the previously accepted state with a step equal to the difference of the two times, up to the accuracy requested of the Newton iteration. For right-hand sides linear in u with an exact Jacobian it agrees up to rounding. This holds after any sequence of kept or recomputed factorisations, failed Newton iterations, rejected attempts and last-step adjustments.",
["inputs","histories","configurations"],"all right-hand sides, dimensions, step sizes, Jacobian sources and histories of failures",
"test_van_der_pol only prints the solution.",
[RA+"newton.rs",RA+"linear_solve.rs",RA+"dec.rs",RA+"constants.rs",RA+"step_size_control.rs",RA+"algorithm.rs"],
[("simplified Newton iteration in transformed variables",RA+"newton.rs newton"),("when factorisations are kept",RA+"step_size_control.rs, "+RA+"algorithm.rs step")],["t, u before and after every step"])
p("C05","DormandPrince5 accepts exactly the steps that meet the tolerance",
"An attempted DormandPrince5 step is accepted exactly when the root mean square over the components of the embedded error estimate divided by abstol + reltol * max(|u before|, |u after|) is at most one; an estimate that is not a number counts as too large. A rejected attempt leaves time and state unchanged and is retried from there with a smaller step.",
["inputs","histories","configurations"],"all sequences of error estimates, tolerances, dimensions and directions",
"No test looks at rejected attempts; the acceptance test is only visible attempt by attempt.",
[DP+"error.rs",DP+"prepare.rs",DP+"stages.rs"],
[("error norm",DP+"error.rs error"),("accept or reject",DP+"prepare.rs prepare_next_step")],["right-hand-side evaluation times, t, u, stats"])
p("C06","DormandPrince5 chooses the next step by the stabilised controller",
"After an accepted step with error norm err the next step is dt * safe * errold^beta / err^(0.2 - 0.75 beta), with the ratio limited to [facl, facr], where errold is the previous accepted error (at least 1e-4), and it does not grow directly after a rejection. After a rejection it is dt * safe / err^(0.2 - 0.75 beta), with the ratio at least facl. The chosen step keeps the direction of integration and never exceeds dtmax.",
["inputs","histories","configurations"],"all sequences of error estimates and settings of safe, beta, facl, facr and dtmax",
"Tests never vary the controller options and do not look at step sizes.",
[DP+"prepare.rs",DP+"algorithm.rs"],[("step size formula",DP+"prepare.rs prepare_next_step")],["dt, dtprev after every step; evaluation times"])
p("C07","Radau5 accepts exactly the steps whose error estimate is below one",
"An attempted Radau5 step whose Newton iteration converged is accepted exactly when the root mean square of the filtered embedded error estimate, scaled by the (internally converted) tolerances at the start of the step, is below one; on the first step and after a failed attempt the estimate is filtered a second time before rejecting. An estimate that is not a number rejects the step, and a rejected attempt leaves time and state unchanged.",
["inputs","histories","configurations"],"all sequences of right-hand-side answers, tolerances, dimensions and directions",
"test_van_der_pol asserts nothing.",
[RA+"error_estimate.rs",RA+"step_size_control.rs",RA+"algorithm.rs"],[("error estimate",RA+"error_estimate.rs"),("accept or reject",RA+"step_size_control.rs")],["t, u, stats after every step; evaluation times"])
p("C08","Radau5 recovers from Newton failures and singular matrices",
"When the Newton iteration of a Radau5 attempt diverges, converges too slowly or meets NaN, or when an iteration matrix is singular, the step is retried from the same time and state with a smaller step and with a Jacobian evaluated at that time and state. Five singular matrices in the course of one integration, in a row or not, end it with SingularMatrix; no step computed from a failed attempt is ever accepted. An iteration is given up only when it has taken max_newt_iter iterations, hardly contracts any more, or is predicted not to converge within max_newt_iter iterations.",
["inputs","fault_sequences","histories"],"all sequences of converging, diverging, slow and NaN Newton answers and of singular matrices at any attempt",
"The tests never make a Newton iteration fail on purpose and never produce a singular matrix.",
[RA+"newton.rs",RA+"dec.rs",RA+"algorithm.rs","src/linalg/dec.rs"],[("failure branches",RA+"newton.rs newton"),("singular matrices",RA+"dec.rs perform_decompositions")],["Jacobian evaluation points, evaluation times, retcode"])
p("C09","Radau5 chooses the next step by its documented controller",
"After an accepted step the next step is dt divided by err^0.25 / fac limited to [facr, facl], with fac = min(safe, safe (1 + 2 max_newt_iter) / (newton iterations + 2 max_newt_iter)), and, with modern_pred, additionally by Gustafsson's predictive quotient from the second accepted step on; it keeps direction, respects dtmax, does not grow directly after a failed attempt, and is held unchanged when the ratio lies in [quot1, quot2] and Newton converged fast. A rejected attempt is retried with the limited quotient (a tenth of the step when nothing was accepted yet), a failed Newton iteration with half the step or the factor from the predicted convergence.",
["inputs","histories","configurations"],"all sequences of error estimates and Newton outcomes, and the settings of the step-size options",
"No test looks at step sizes or varies these options.",
[RA+"step_size_control.rs",RA+"newton.rs",RA+"algorithm.rs"],[("controller",RA+"step_size_control.rs"),("step reduction on Newton failure",RA+"newton.rs")],["t, dt, stats after every step"])
p("C10","The global error follows the tolerance",
"On smooth, well-conditioned problems the error of every recorded state is within a modest problem-dependent multiple of abstol + reltol * |u| for both methods, for every combination of step options, Jacobian source and direction. Tightening the tolerance by a factor reduces the error accordingly, down to rounding.",
["inputs","configurations"],"all problems of a family with known solutions, times tolerances and options",
"Only one oscillator at one tolerance is compared with its solution.",
[DP+"algorithm.rs",DP+"error.rs",RA+"algorithm.rs",RA+"error_estimate.rs"],[("error control",DP+"prepare.rs, "+RA+"step_size_control.rs")],["sol.ts, sol.us"])
p("C11","max_steps bounds the work without changing the trajectory",
"With max_steps = m >= 1 the step counter never exceeds m. If the unlimited integration needs N counted steps, every m >= N gives the same successful solution, and every m < N ends with MaxIters and records a prefix of that solution.",
["configurations","histories"],"every limit from 1 to beyond the number of steps, for every problem and option set",
"No test sets max_steps.",
[DP+"algorithm.rs",RA+"algorithm.rs"],[("step budget checks",DP+"algorithm.rs step, "+RA+"algorithm.rs step")],["stats.steps, retcode, sol"])
p("C12","Work statistics are truthful",
"At every moment the number of right-hand-side evaluations equals function_evals, plus (n+1) for each counted Jacobian evaluation when the Jacobian is approximated by differences; jacobian_evals counts every evaluation of the Jacobian. accepts equals the number of recorded steps, rejects the number of attempts rejected by the error test after the first accepted step, and steps the accepted steps (DormandPrince5) or all attempts (Radau5); Radau5's linear_solves counts Newton iterations and decompositions the successful factorisations.",
["inputs","histories","configurations"],"all runs, including rejected, failed and aborted ones, with and without callback and Jacobian",
"No test reads the statistics.",
["src/ode/statistics.rs",DP+"stages.rs",DP+"prepare.rs",RA+"newton.rs",RA+"error_estimate.rs",RA+"step_size_control.rs",RA+"dec.rs"],[("counter updates","next to each evaluation")],["stats and counted calls after every step"])
p("C13","The solution record and the integrator state agree",
"The solution holds as many states as times; its first entry is the initial condition and each accepted step appends exactly one entry equal to the integrator's new time and state. After every step the previous time and state are the ones before the step and t - tprev equals dtprev up to rounding; a step call that accepts nothing appends nothing and changes neither.",
["inputs","histories","configurations"],"all runs of all lengths, with rejections, failures and early stops",
"Tests print the record but do not compare it with the integrator.",
[IN,"src/ode/solution.rs",DP+"algorithm.rs",DP+"prepare.rs",RA+"step_size_control.rs"],[("recording",DP+"algorithm.rs step, "+RA+"step_size_control.rs")],["sol, t, u, tprev, uprev, dtprev after every step"])
p("C14","All ways of driving an integration give the same solution",
"Any mixture of step calls, integrate and both iterators produces the same sequence of states, bit for bit, as any other; the iterators yield every accepted state including the final one exactly once and in order. step returns the step count while more is to be done and None at the end; once finished, further calls change nothing and yield nothing. The solution's own iterators yield the recorded pairs in order.",
["histories"],"all sequences of driving operations up to a bound, on successful and failing integrations",
"Each test uses a single way of driving once.",
[IN,"src/ode/solution.rs"],[("step, integrate, Iterator impls",IN)],["yielded items, sol"])
p("C15","Callbacks run once per step and their changes take effect",
"A callback runs exactly once after every accepted step, when the integrator and the record already show that step. Whatever it changes in the state, the parameters or the step size is what the next step starts from, the integration still ends at the final time and not before, and setting a return code stops it after that step; a callback that changes nothing leaves the solution unchanged.",
["histories","inputs"],"all sequences of callback actions (none, change of state, of parameters, of step size, stop) over the steps of an integration",
"test_balldrop uses a callback but asserts nothing about what follows it.",
[IN,DP+"algorithm.rs",RA+"algorithm.rs"],[("callback invocation",IN+" step"),("re-evaluation after a callback",DP+"algorithm.rs, "+RA+"algorithm.rs")],["callback arguments, t, u"])
p("C16","Integrators are deterministic and independent",
"Repeating an integration gives identical results, and integrators do not influence each other however their steps are interleaved, including an integration that runs inside the right-hand side of another and integrations in parallel threads.",
["schedules","histories"],"all interleavings of the steps of two and three integrators of both methods and different dimensions, nested and concurrent use",
"Every test drives one integrator at a time.",
[IN,DP+"cache.rs",RA+"cache.rs"],[("all working storage belongs to the integrator",DP+"cache.rs, "+RA+"cache.rs")],["sol of each integrator"])
p("C17","Options take effect exactly as set",
"Every builder setter changes exactly its own option, the last call wins, the order of different setters does not matter, and options that are not set keep the method's defaults, which are those of Hairer and Wanner's codes DOPRI5 and RADAU5; the built integrator carries them (Radau5 converts the tolerances as documented by its authors and derives the Newton tolerance from them when it is not given). Options that do not concern a method, and requesting dense output, do not change its trajectory.",
["configurations"],"all ordered pairs (and triples) of setters with several values, for both methods",
"Tests set at most two options.",
[IN,"src/ode/options.rs",DP+"algorithm.rs",RA+"algorithm.rs"],[("setters",IN+" OdeIntegratorBuilder"),("defaults","default_opts of each method")],["opts of the built integrator, sol"])
p("C18","The right-hand side is only evaluated inside the attempted step",
"Every evaluation of the right-hand side lies at a time between the current time and the end of the attempted step, and never outside the time span, in both directions. Jacobians are evaluated only at the current time and state. As long as the right-hand side returns finite moderate values it is called with finite states only. The slope Radau5 carries into the next step is evaluated at the new time and state, and every call gets vectors and matrices of the dimension of the problem.",
["inputs","histories","configurations"],"all problems, spans, initial steps, step limits and rejection histories",
"Tests do not record evaluation points.",
[DP+"stages.rs",DP+"algorithm.rs",RA+"newton.rs",RA+"error_estimate.rs","src/ode/jacobian.rs"],[("stage times",DP+"stages.rs, "+RA+"newton.rs"),("clipping to the final time",DP+"algorithm.rs, "+RA+"algorithm.rs")],["arguments of the right-hand side and Jacobian"])
p("C19","Dense LU factorisation and solution are correct, real and complex",
"For every non-singular dense matrix, real or complex, of any dimension the factorisation reports success and the solver returns the solution of the linear system with a small backward error, with partial pivoting protecting against small pivots. A matrix for which a pivot column vanishes is reported as singular (non-zero code), at whichever column this happens, including the first.",
["inputs"],"all matrices over small alphabets that include zeros, ones, small and large entries, up to dimension 4",
"Three fixed matrices of dimension 3 are tested.",
["src/linalg/dec.rs","src/linalg/sol.rs"],[("dec, decc, sol, solc","src/linalg")],["solution vector, return code"],"cfg(cyphus_verif) wrappers")
p("C20","Hessenberg and banded LU and the Hessenberg reduction are correct",
"For every non-singular Hessenberg or banded matrix, real or complex, with any lower and upper bandwidth the structured factorisation and solver return the solution of the linear system, and a vanishing pivot column is reported with a non-zero code. The reduction to Hessenberg form is a similarity transformation of the given matrix.",
["inputs","configurations"],"all matrices over small alphabets, all bandwidths, up to dimension 4 or 5",
"One real Hessenberg matrix is tested, the others not at all.",
["src/linalg/dec.rs","src/linalg/sol.rs"],[("dech, dechc, decb, decbc, elmhes, solh, solhc, solb, solbc","src/linalg")],["solution vector, return code"],"cfg(cyphus_verif) wrappers")
p("C21","Difference Jacobians approximate the derivatives",
"The Jacobian approximated by differences agrees with the derivative with respect to every component to about half the working precision relative to the local scale, for components of either sign and any moderate magnitude, and the state passed in is perturbed in one component at a time and by a small amount. The time derivative is approximated likewise, and a user-supplied Jacobian is used as is.",
["inputs"],"all linear and a family of nonlinear right-hand sides over grids of states and times of both signs and many magnitudes",
"No test uses a difference Jacobian.",
["src/ode/jacobian.rs"],[("jacobian_u, jacobian_t","src/ode/jacobian.rs")],["Jacobian matrix"],"cfg(cyphus_verif) wrappers")
p("C22","Dense output interpolates the accepted step",
"With dense output requested, the continuous output of the last step equals the previous state at its start and the new state at its end; for DormandPrince5 it is the fourth-order interpolant of the stages in between, for Radau5 the collocation polynomial through the stages. Both are at least third-order accurate inside the step.",
["inputs","histories","configurations"],"all steps of all problems, directions and rejection histories, at a grid of positions in the step",
"No test requests dense output.",
[DP+"dense.rs",RA+"continuous_output.rs",RA+"step_size_control.rs"],[("prepare_dense, dense_output",DP+"dense.rs"),("cont",RA+"step_size_control.rs, "+RA+"continuous_output.rs")],["interpolated vectors"],"cfg(cyphus_verif) wrappers")
p("C23","Solutions respect the symmetries of the equation",
"Mirroring time, negating the state, permuting the components, scaling state and absolute tolerance or scaling time by a power of two, shifting time, and replicating a system several times transform the computed solution in the same way for both methods, up to rounding.",
["inputs","configurations"],"all problems and option sets times all transformations of a finite group",
"Tests use one direction, positive times and dimension 2.",
[DP+"error.rs",DP+"prepare.rs",RA+"step_size_control.rs",RA+"error_estimate.rs",IN],[("direction handling and error norms",DP+"prepare.rs, "+RA+"step_size_control.rs")],["sol"])
p("C24","Linear conservation laws are preserved",
"Every linear combination of the components whose derivative vanishes identically stays at its initial value in all recorded states up to accumulated rounding, for both methods with an exact Jacobian and any step sequence.",
["inputs","histories"],"all problems with linear invariants, tolerances and options",
"No test has an invariant.",
[DP+"stages.rs",RA+"newton.rs",RA+"step_size_control.rs"],[("Runge-Kutta update",DP+"stages.rs, "+RA+"newton.rs")],["sol.us"])
p("C25","Radau5 takes large steps on stiff problems",
"On stiff problems with smooth solutions the number of steps, evaluations and factorisations Radau5 needs stays bounded by a constant independent of the stiffness, and the solution stays accurate at every stiffness, with analytic or difference Jacobian.",
["inputs","configurations"],"all stiffness ratios from 1 to 1e9 in a family of stiff problems, times tolerances and options",
"test_van_der_pol solves one stiff problem and asserts nothing about work or accuracy.",
[RA+"newton.rs",RA+"step_size_control.rs",RA+"error_estimate.rs",RA+"dec.rs"],[("Newton iteration, filtered error estimate",RA+"newton.rs, "+RA+"error_estimate.rs")],["stats, sol"])
p("C26","Initial step and maximum step are honoured",
"The first attempted step has size dtstart, reduced to dtmax and to the length of the time span if those are smaller, and points towards the final time. No attempted step exceeds dtmax, except that the last step may be stretched a little to reach the final time (by one percent for DormandPrince5, by the factor 1/quot1, at least 1.0001, for Radau5) and that a callback may set a larger step.",
["configurations","histories"],"all combinations of initial step, maximum step, span length and direction",
"No test sets dtstart or dtmax.",
[IN,DP+"prepare.rs",DP+"algorithm.rs",RA+"step_size_control.rs",RA+"algorithm.rs"],[("initial step",IN+" build"),("dtmax clamp",DP+"prepare.rs, "+RA+"step_size_control.rs")],["evaluation times, dtprev"])
p("C27","The final time only affects the steps that reach it",
"Integrating the same problem with the same options to two final times in the same direction gives the same steps, bit for bit, as long as the next step stays clear of the nearer final time: the same times, states, step sizes, statistics and return codes, with or without rejected attempts. Where an integration stops does not influence how it gets there.",
["inputs","histories","configurations"],"all problems, options, discontinuous right-hand sides and placements of bad answers, times several final times",
"Tests integrate each problem to one final time.",
[DP+"algorithm.rs",DP+"prepare.rs",RA+"algorithm.rs",RA+"step_size_control.rs",IN],[("last-step test",DP+"algorithm.rs step, "+RA+"step_size_control.rs"),("initial step",IN+" build")],["sol, stats, dtprev"])
p("C28","Evaluations are not wasted",
"Without a callback, every evaluation is one the method needs. DormandPrince5 evaluates the right-hand side once when built and six times per attempt; the last stage of an accepted step is not evaluated again as the first slope of the next. Radau5 evaluates it once when built, three times per Newton iteration with at most max_newt_iter iterations per attempt, at most once more per attempt for the filtered error estimate, and at most once after an accepted step, not after the last one. A Jacobian is evaluated once when built, at most once after each failed attempt, singular matrix or accepted step, and costs one evaluation more than there are components when it is approximated by differences.",
["inputs","histories","fault_sequences","configurations"],"all problems, options, discontinuous right-hand sides and placements of bad answers",
"No test counts evaluations.",
[DP+"stages.rs",DP+"algorithm.rs",DP+"prepare.rs",RA+"newton.rs",RA+"error_estimate.rs",RA+"step_size_control.rs","src/ode/jacobian.rs"],[("first same as last",DP+"prepare.rs"),("slope and Jacobian after a step",RA+"step_size_control.rs")],["times and number of evaluations per step call"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title']))
import jsonschema
S=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,S)
