"""rewrites the fixed entries of known_findings.json from the fix commits of /repo."""
import json, subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [("pivot was rounding dust","P10","the adaptive passes returned an empty sequence when an entry of the matrix was nonzero but below 1e-18"),
("density matrices from counts","P24","the density matrix of a single line crashed and counts of dimensions above ten were read as separate digits"),
("factors of an instantiated ansatz","P27","the gates of an instantiated ansatz were applied in reverse order"),
("rotations of the sparsifier","P27","the sparsifier applied its rotations on the other sides than the objective it had minimised"),
("timer of a finished layer search","P27","the timer of a layer search went on running and aborted later searches"),
("prepare the shared subtree","P22","state preparation skipped the remaining lines below a node whose first child is zero and whose other children are equal"),
("embedding a gate","P04","the identity padding of a single-target gate used the dimension of the wrong line"),
("control levels against","P05","control levels outside the dimension of the controlling line were accepted"),
("long-range flag","P05","the long-range flag was stale after controls had been added"),
("control lines of a controlled gate to QASM","P08","controlled gates were exported with the target as control"),
("QASM gate parameters typed","P08","integer levels became floats so imported gates were dropped or wrong"),
("noise gates that QASM","P08","noisex/noisey written by the export could not be read"),
("LS and MS matrices","P02","LS and MS on unequal dimensions in descending line order had the wrong matrix"),
("dag involutive","P03","inverting twice did not restore the gate"),
("order of the decomposed gates","P14","the logical entangling pass reversed the decomposed gates"),
("two-qudit gates in ascending","P14","two-qudit gates listed in descending order were decomposed wrongly"),
("already inverted sequence","P11","the physical QR pass inverted its sequence twice"),
("inverse of the diagonalising","P10","the logical local passes returned the inverse of the unitary"),
("level of a stored phase","P10","the stored phase rotation lost its level"),
("energy level graph of the backend","P10","the logical adaptive pass overwrote the backend graph"),
("rebuild the circuit in order when propagating","P16","phase propagation reordered gates and lost others"),
("control lines into account when removing","P17","phase rotations on control lines were treated as removable"),
("control and target lanes","P18","controlled gates were recorded on one lane only"),
("level permutations around a physically","P15","two-qudit gates were compiled without the level permutations of the placement"),
("controlled single-qudit gates in the physical","P15","controlled single-qudit gates crashed the physical entangling pass"),
("phase and inversion of a CEx","P15","a controlled exchange lost its phase and inversion when mapped to physical levels"),
("map physical results back","P24","results were mapped back with the inverse placement"),
("placement before to the one after","P12","the physical adaptive pass mixed the placements before and after"),
("routing pulses already compensate","P12","phases of routing pulses were moved twice"),
("lines between control and target","P14","lines between control and target were part of the decomposed matrix"),
("no permutation in the permutation gate","P06","level lists that are no permutation were accepted"),
("malformed parameters of the virtual","P06","malformed virtual phase parameters gave an identity"),
("start every compilation","P15","a second compilation with the adaptive pass started from the placement the first one had reached"),
("store phases on the graph","P15","phases stored while compiling stayed on the graph of the backend and entered the next compilation"),
("control and target noise modes","P21","the control mode crashed on controlled single-qudit gates and the target mode put errors on control lines"),
("block comment","P08","a block comment closed on its own line swallowed the rest of the program"),
("shared their random numbers","P30","shots of a noisy simulation started in one worker process or within one tick of the clock shared their random numbers"),
("waiting for a cancelled job","P31","waiting for a cancelled job never ended"),
("within one millisecond","P31","jobs made within one millisecond had the same id"),
("refuses gates it does not know","P29","a gate or dimension the decision-diagram simulator does not know crashed the process or left the state unchanged"),
("set_options rejected","P31","set_options rejected every option"),
("options of one run applied","P31","options of one run applied to all later runs of the backend"),
("random unitary gate had another matrix","P03","a random unitary gate had another matrix each time it was asked for"),
("ran out of time crashed","P27","a variational search that ran out of time crashed and stopped all later ones"),
("variational compilation of a gate put","P27","variational compilation of a gate put the result on the first two lines"),
("sparsification of a gate put","P27","sparsification of a gate put its rotations on the first two lines"),
("inverted custom primitive","P27","the variational search used an inverted custom primitive as if it were not inverted"),
]
log = subprocess.run(["git","-C","/repo","log","--reverse","--format=%h %s"],capture_output=True,text=True).stdout.splitlines()
f=f"{V}/known_findings.json"
kf=[k for k in json.load(open(f)) if k["status"]=="known"] if os.path.exists(f) else []
extra = json.load(open(f"{V}/tools/fixed_extra.json")) if os.path.exists(f"{V}/tools/fixed_extra.json") else []
for l in log:
    h,s=l.split(" ",1)
    if not s.startswith("fix:"): continue
    m=[x for x in MAP+[tuple(e) for e in extra] if x[0] in s]
    assert len(m)==1,(l,m)
    kf.append({"property":m[0][1],"status":"fixed","commit":h,"entry":f"fixed: property={m[0][1]} {h} {m[0][2]}"})
json.dump(kf,open(f,"w"),indent=1)
print(len(kf))
