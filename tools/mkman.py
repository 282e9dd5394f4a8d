import json,os,glob
have=sorted(os.path.basename(p)[:3].upper() for p in glob.glob('/verif/dst/props/c[0-9]*.py'))
notes={
"C01":"Seeded search over interleavings (every line or bytecode of package code is a switch point) of 2-4 client threads against solo references; finds schedules with bounded probability, proves nothing outside the explored runs. PyTorch kernels are atomic steps.",
"C02":"Seeded histories with aborts at arbitrary lines / tensor operations, rejected calls and process restarts; every evaluation and gradient compared with an independent contraction in double precision within a conditioning-aware tolerance.",
"C03":"Seeded shift histories; function before and after every shift compared on random probes, exactly where the documented truncation removes nothing and against an independently truncated chain otherwise.",
"C04":"Seeded batch-size histories; shift times and reported spectrum compared with an independent model of the schedule and the merged-core SVDs.",
"C05":"Seeded fault points (interrupt at any line, failing allocation or SVD at any tensor operation) inside shifts; afterwards old-or-new function, bonds and parameter objects are checked, and later history against a retry.",
"C06":"Seeded histories; parameter identity, names, order, true gradients by autograd through the reference, and step effect checked after every operation.",
"C07":"Seeded crash points on a simulated disk which loses, tears and reorders unsynced data; restored model and continuation compared with the undisturbed twin.",
"C08":"Seeded copy moments and ways of copying, every later operation on original and copies compared with undisturbed twins replaying each one's own history.",
"C09":"Seeded histories; each log probability and gradient compared with an independent Born-rule reference whose normalisation uses own quadrature; explicit sums over all inputs of short lengths.",
"C10":"Seeded registration histories with rejected, raising and aborted registrations; last accepted map is model state of the reference; parameters, saved state and gradients compared.",
"C11":"Seeded interleavings with threads drawing from and reseeding global generators; results compared with permutation / completeness oracles and with a solo run.",
"C12":"Seeded histories with the states of all three global generators compared around every call, and whole histories replayed with disturbed foreign generators.",
"C13":"Seeded calls ending in success, rejection, or abort at any line / tensor operation; bitwise comparison of state, gradients, mode, caller tensors and storage.",
"C14":"Seeded simulated batching server (arrivals, batch policies, poison companions, retries, padding) against each request's solo result and an independent reference.",
"C15":"Seeded histories of concurrent and aborted calls on shared arguments; each result compared with own SVD of the matricised tensor in double precision (error, isometry, spectrum, padding).",
"C16":"Seeded histories of concurrent and aborted calls on shared arguments; values and gradients compared with own plain products in double precision, within bounds by the products of absolute values.",
"C17":"Seeded histories of concurrent and aborted calls; structure exactly, noise by bounds no correct run exceeds (below 1e-9 per call).",
"C18":"Seeded histories of concurrent and aborted calls on shared arguments; values and gradients compared with own formulas.",
}
na={}
m={"version":1,"setup_cmd":"./check setup",
"checks":[{"property":c,"quick_cmd":f"./check {c} quick","thorough_cmd":f"./check {c} thorough","technique":"deterministic simulation with fault injection (seeded schedule/fault search against an independent reference model, minimised replay)","level":"exploration","level_note":notes[c],"evidence_file":f"evidence/{c}.json"} for c in have],
"not_applicable":[{"property":k,"reason":v} for k,v in na.items()]+[{"property":c,"reason":"check under construction"} for c in notes if c not in have],
"notes":"No hooks in /repo: schedule points come from sys.monitoring line/instruction events in package code, operation faults from TorchDispatchMode, disks and processes are simulated. See DESIGN.md."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
