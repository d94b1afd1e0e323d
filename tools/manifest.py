import json,subprocess
notes={}
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
full=lambda h: subprocess.check_output(['git','-C','/repo','rev-parse',h],text=True).strip()
how={
'C01':"Valid, damaged and random streams in both text modes and at sizes from 1x1, cut arbitrarily, with concurrent resizes; a panic, deadlock, runaway loop or a dead read accessor is the violation. Hangs are judged by processor time of a run repeated alone.",
'C02':"Structure of both buffers (rows of positive-width runs that sum to the width, agreement of Line, StyledLine and ANSILine, cursor and scroll region in range) is checked at every unlock and every read.",
'C03':"Refinement against the reference model at every read boundary: cells, cursor and wrap/pin at the edge.",
'C04':"Refinement against the reference model for cursor motion, save/restore and index at the edges of the scroll region.",
'C05':"Refinement against the reference model for ED, EL, ECH and DCH, including the style of blanked cells.",
'C06':"Refinement against the reference model for SU, SD, IL, DL, DECSTBM and implicit scrolls, counts up to beyond the region.",
'C07':"Refinement against the reference model's fold of SGR parameters; the style of each cell and the StyleChanged value are compared.",
'C08':"The same stream in two executions, cut into reads by the scheduler and read whole; final screens, cursor, modes, replies and notifications are compared.",
'C09':"Known, unknown and malformed-but-well-delimited sequences between text; refinement against the model, payloads of OSC compared byte by byte.",
'C10':"A frontend that re-reads only announced cells; its mirror, last notifications and announced scrollback are compared with the screen at every read boundary.",
'C11':"ANSILine of all rows fed to a fresh terminal, and a TTYFrontend's output interpreted by an outer terminal; both compared with the inner screen.",
'C12':"Encodings of generated key events compared with an independent encoder of the protocol, in every mode and flag combination, with decoding and uniqueness checks.",
'C13':"Reports compared with an independent encoder per mode and encoding, decoded back; failed and short writes injected.",
'C14':"All bytes written to the backend by the read loop compared with the model's queue of replies.",
'C15':"Random and priority schedules at every lock, read, write and callback; callbacks without the lock, deadlocks, torn states and broken messages are violations; a second set of runs executes in a race-detector build whose scheduler adds no ordering of its own.",
'C16':"Data with errors, zero-length reads, errors in the middle of anything, long streams across buffer boundaries, short, failing and misreporting writes, tee, sizes, a real PTY.",
'C17':"Refinement against a model with two independent screens, mode sets and resets repeated, notifications compared.",
'C18':"Resizes at arbitrary points, including between the parts of an escape sequence; both buffers compared with the model's overlap and everything afterwards.",
'C19':"Refinement against the model's flag stacks of both screens, up to and beyond 32 entries, through queries.",
'C20':"Twin execution of the same scenario on both buffers, compared at every read boundary until a write starts on the second half of a wide character.",
}
m={"version":1,"setup_cmd":"./check.sh build",
"hooks":{"guard":"verif","enable":"go build -tags verif (done by /verif/check.sh)","source_commits":[full('93b22fe'),full('00cc49b')]},
"checks":[{"property":p['id'],"quick_cmd":f"./check.sh {p['id']}","thorough_cmd":f"VERIF_TIER=thorough ./check.sh {p['id']}",
"evidence_file":f"evidence/{p['id']}.json","technique":"deterministic simulation with fault injection: seeded search over inputs, read segmentation, schedules and faults, checked against a reference model",
"level":"exploration","level_note":how[p['id']]+" Sampled, not exhaustive; trusts the model written for this purpose and that control changes hands only at lock, I/O and callback points."} for p in props],
"not_applicable":[],
"notes":"check.sh replay FILE repeats a recorded violation. KNOWN_FINDINGS.txt lists defects found in the repository. TERMSIM_TIME, TERMSIM_RUNS and TERMSIM_WORKERS override how much a check does."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
