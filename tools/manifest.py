#!/usr/bin/env python3
# Writes MANIFEST.json from the table below.
import json,os,sys
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH="deterministic simulation with fault injection: seeded histories, callbacks and faults on the real package, judged by an independent model"
TAIL=" Seeded search shows violations, not their absence. Trusts the Go toolchain and the tolerances listed in DESIGN.md."
NOTE={
"C01":"Every step of every simulated history is compared with an independent geometric model (all pairs, exact separation); pairs within 1e-6 of touching are not judged.",
"C02":"Every contact set handed to a callback or query is compared with the exact separation and geometry of the pair.",
"C03":"An independent state machine per shape pair consumes every callback of every history, including those caused by removal, sleep, filters and type changes.",
"C04":"Every callback of every history is matched against an independent dispatch table: handler, order of arguments, user data, flags.",
"C05":"A model of the post-step queue follows every registration, step and callback of every history.",
"C06":"After every operation the space's enumerations and flags are compared with the model's sets.",
"C07":"Point, segment, box and shape queries at every moment of the histories, also from callbacks and nested, are compared with a brute-force scan.",
"C08":"A model of islands and sleep follows every history; sleeping bodies are compared bit for bit, every disturbance has to wake the island.",
"C09":"Idle times of all islands are bounded from both sides by the model; falling asleep early or not at all is reported.",
"C10":"Linear and angular momentum of every closed component of bodies is balanced over every step (errors measured near 1e-12); static and kinematic bodies are compared bit for bit.",
"C11":"Contact impulses of every step are checked against the momentum change, the friction cone and, for isolated contacts, restitution and Coulomb friction; slopes and belts have closed-form answers.",
"C12":"Joints of every kind, alone and in chains, are disturbed and judged after 12 simulated seconds of peace; joints within their limits have to be idle in every step.",
"C13":"The impulse of every isolated joint in every step is compared with the momentum change, the force limit, its one-sidedness and the speed it has to produce; hooks are counted.",
"C14":"Overlaps, stacks, piles and containers are run and judged at the end of the simulated time; penetration correction is compared with its exact value where it is isolated.",
"C15":"The position and velocity of every body in every step are compared with the integration rule and the solver's reported impulses.",
"C16":"Every history is executed again with other garbage, other memory and other spaces before and between, and in another process; digests of all states and callbacks must be equal.",
"C17":"Several worlds run interleaved in one process, also stepped from each other's callbacks, or in goroutines that a seeded scheduler preempts at single statements of the library; each must give the digest it gives alone.",
"C18":"Mass, moment and center of gravity of every body are compared with an independent computation after every operation.",
"C19":"Histories of extreme but legal worlds; a panic, a hang, or a number that is not finite is reported.",
"C24":"Callbacks of the histories replace contact sets; what readers see, the impulses, and the contacts of the next step are compared with the set put in.",
"C25":"After every operation all settings and placements are compared with the model's record of what was set.",
"C27":"One program of additions, contacts, sleeping, removals in callbacks and index switches is executed again and again in one space; live heap after collection must not rise from cycle to cycle.",
"C28":"One program runs in two worlds of a debug build, in one of them interspersed with illegal calls at the top, in queries and in callbacks of steps; each has to panic, and both worlds have to stay equal to the last bit.",
"C29":"One program runs in two worlds whose units of mass and time differ by powers of two; every state, contact impulse and joint impulse has to correspond to the last bit at every step.",
"C30":"One program runs in two worlds, one of them turned by right angles; every state, contact, impulse, colliding pair and query answer has to correspond at every step, to the last bit after half turns.",
"C26":"The pictures a recording Drawer gets after operations and steps, and the numbers of DebugInfo, are compared with the model.",
}
NA={
"C20":"Convex hulls are a pure function of their input: no time, schedule, I/O, history or fault to simulate.",
"C21":"Marching squares and polyline simplification are pure functions of their input: nothing to simulate.",
"C22":"Area, moment and centroid formulas are pure functions of their input: nothing to simulate. Their use inside a space is covered by C18.",
"C23":"Vector, transform and bounding-box algebra are pure functions of their input: nothing to simulate.",
}
TODO=set(sys.argv[1:])
checks=[];na=[]
for l in open(root+"/properties.jsonl"):
    p=json.loads(l)["id"]
    if p in NA: na.append({"property":p,"reason":NA[p]})
    elif p in TODO: na.append({"property":p,"reason":"The check is under construction."})
    else:
        checks.append({"property":p,"quick_cmd":"./check "+p,"thorough_cmd":"VERIF_TIER=thorough ./check "+p,"evidence_file":"evidence/%s.json"%p,
          "technique":TECH,"level":"exploration","level_note":NOTE[p]+TAIL})
json.dump({"version":1,"setup_cmd":"./build.sh","checks":checks,"not_applicable":na,
 "notes":"No hooks in /repo: the package is single-threaded and takes time, callbacks and randomness from its caller, who is the simulator. Repairs are listed in known-findings.txt."},open(root+"/MANIFEST.json","w"),indent=1)
open(root+"/MANIFEST.json","a").write("\n")
