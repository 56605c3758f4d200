import json,subprocess
T={
"C01":("exhaustive placement of bad right-hand-side answers, option grids and adversarial right-hand sides on the real integrators, monitored step by step",
 "Every execution of the stated finite environments runs on the compiled library; a hang, panic or wrong return code in any of them is reported. Trusts the monitor (a few lines) and that environments beyond the bounds behave alike."),
"C02":("exhaustive execution of bounded environments with a time monitor","Every recorded time of every execution is judged; exact comparisons except for rounding at the final time."),
"C03":("conformance of every accepted step to an independent Dormand-Prince model over all bounded environments","The reference step is written from the published tableau; agreement is required to rounding estimated by perturbation."),
"C04":("conformance of every accepted step to independently solved collocation equations and to a reference model of the Newton iteration, over all bounded environments","The oracle solves the collocation equations with full Newton iteration; deviation is measured in units of the requested Newton accuracy."),
"C05":("all sequences of error classes up to a depth, planned by a model and replayed on the real integrator, plus all attempts of the option grids","Accept/reject is judged attempt by attempt; estimates within rounding of one are counted, not judged."),
"C06":("all sequences of error classes up to a depth times controller settings, planned by a model and replayed on the real integrator","Step sizes are compared with the controller formula; trusts the reference formula, which is Hairer's."),
"C07":("reference model of Radau5 explored over all sequences of answers and replayed on the real integrator","Accept/reject is judged attempt by attempt against the model; decisions within rounding are counted, not judged."),
"C08":("reference model of Radau5 explored over all sequences of diverging, slow, NaN and singular answers and replayed on the real integrator","Reaction to each failure is judged attempt by attempt against the model and from the Jacobian evaluation points."),
"C09":("reference model of the step-size controller explored over all sequences of answers and options and replayed on the real integrator","Each chosen step is compared with the model's interval for it."),
"C10":("exhaustive grid of problems with known solutions, tolerances and options against per-class bounds","Bounds were calibrated on the repaired tree with a margin of three; regressions below that factor are not seen here (C03-C09 see them)."),
"C11":("every step limit from 1 past the number of steps, against the unlimited run, bit for bit","Exact comparison of runs of the same binary."),
"C12":("exhaustive execution of bounded environments with independent counting of every evaluation","Counts are compared after every step call; attempts are reconstructed from evaluation times."),
"C13":("exhaustive execution of bounded environments with a record monitor","Exact comparison after every step call."),
"C14":("all sequences of driving operations up to a depth against the plain step loop, bit for bit","Exact comparison of runs of the same binary."),
"C15":("all sequences of callback actions up to a depth, each step judged against the reference step from what the callback left","As C03 and C04 per step; callbacks that change time or options are outside."),
"C16":("all interleavings of step calls of two and three integrators up to a depth, nested and concurrent use, against solo runs bit for bit","Interleavings are at the granularity of public calls; operating-system thread schedules are not enumerated (the library has no shared state)."),
"C17":("all ordered sequences of setters up to a length with several values, against a map model of the options","Exact comparison."),
"C18":("exhaustive execution of bounded environments with a monitor of every evaluation point","Every call of the right-hand side and Jacobian of every execution is judged."),
"C19":("all matrices over finite alphabets up to dimension 4, and all row orders of larger graded matrices, against backward error and exact rank","Private routines are reached through thin wrappers guarded by cfg(cyphus_verif)."),
"C20":("all structured matrices over finite alphabets for all bandwidths, against backward error, exact rank and the similarity relation","Private routines are reached through thin wrappers guarded by cfg(cyphus_verif)."),
"C21":("all right-hand sides of a family over complete grids of states and times, against exact derivatives and a monitor of the evaluation points","Private routines are reached through thin wrappers guarded by cfg(cyphus_verif)."),
"C22":("every step of the option grids, against independently computed interpolants","Private routines are reached through thin wrappers guarded by cfg(cyphus_verif)."),
"C23":("complete grid of problems and options times a finite set of symmetries, run against transformed run","Exact where the transformation is exact in floating point, else to rounding."),
"C24":("complete grid of problems with invariants, including all small reaction networks, with a drift monitor","Drift allowance covers rounding only."),
"C25":("complete grid of stiffness ratios, problems, tolerances and options against per-class bounds","Bounds were calibrated on the repaired tree with margins of 1.3 (work) and 3 (error)."),
"C26":("exhaustive execution of bounded environments and all combinations of first step, step limit and span, with a step-length monitor","Attempted steps are reconstructed from evaluation times."),
"C27":("every problem, discontinuous right-hand side and placement of bad answers integrated to several final times and compared step by step, bit for bit","Exact comparison of runs of the same binary; steps close to the final time are not compared."),
"C28":("exhaustive execution of bounded environments with a parser that assigns every evaluation of every step call to a part of the method","Evaluations are told apart by their times; steps near the resolution of time are counted, not judged."),
}
hook=subprocess.run(["git","-C","/repo","log","--format=%H","--grep=Expose private routines to external checks"],capture_output=True,text=True).stdout.split()
m={"version":1,"setup_cmd":"bash setup.sh",
"hooks":{"guard":"cfg(cyphus_verif)","enable":'RUSTFLAGS="--cfg cyphus_verif" (set by run.sh for C19 to C22; the other checks use the public interface only)',"source_commits":hook},
"checks":[{"property":k,"quick_cmd":f"bash run.sh {k} quick","thorough_cmd":f"bash run.sh {k} thorough","technique":"explicit-state exploration: "+t,"level":"model_checking","level_note":n} for k,(t,n) in T.items()],
"not_applicable":[],
"notes":"Replay of a reported case: bash run.sh <id> <tier> <family> <case>. Repaired defects: known-findings.txt."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1);open('/verif/MANIFEST.json','a').write('\n')
import jsonschema
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
ids=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
assert ids==list(T)
