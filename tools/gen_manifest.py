#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
N={
"C01":"Judges every image and ambient temperature of each run against an independent f64 evaluation of the datasheet formulas with a single-precision error bound, on the words actually read.",
"C02":"Compares the caller's buffer bit by bit before and after every image call.",
"C03":"Judges flag, acknowledgement and delivery of every deliver-if-ready call against the camera's publish log.",
"C04":"Tracks which settings the camera accepted; images must be decoded with those.",
"C05":"Compares all register bits around every setter and getter.",
"C06":"Every simulated bus transaction is checked for address, region, width and reserved bits.",
"C07":"Every failed transaction carries a unique error value that the call has to return; following calls are judged by the same models.",
"C08":"Simulated frame timer decides when a synchronise call may and must return.",
"C09":"Random sets of flipped bits in memory and in transit; result compared with an independent decoder.",
"C10":"All calibration accessors compared with an independent decoder over random, extreme and garbage memories.",
"C11":"Overflow checks on; garbage in memory, registers and on the wire; step budget and watchdog; results after recovery compared with the model.",
"C12":"Two to four drivers under a seeded transaction-level scheduler; each must behave as it does alone with the same faults.",
"C13":"Host-side settings and ambient temperature tracked per driver through faults, resets and clones.",
"C14":"The same frame through every public path, compared pairwise and with the model.",
"C15":"A physical scene is rendered into RAM words for whatever configuration is live; readings must match the scene.",
"C16":"Virtual time polling application; bounded number of polls to a complete image after faults stop.",
"C17":"Host crash before or after any transaction, new driver judged against the camera as left.",
"C19":"Drivers and the low-level functions run with calibrations implemented by the harness, whose values vary where no camera's do; same model, same faults.",
"C20":"Register values kept by the application over resets, reconfiguration, measurements and faults, against a bit-level model.",
}
c=[]
for k,v in N.items():
    c.append(dict(property=k,quick_cmd=f"./check.sh {k}",thorough_cmd=f"VERIF_TIER=thorough ./check.sh {k}",evidence_file=f"evidence/{k}.json",
      technique="deterministic simulation with fault injection (seeded scenario search, minimised replay)",level="exploration",
      level_note=v+" Sampled, not exhaustive; trusts the simulated cameras' register, memory and timing semantics and the reference model."))
m=dict(version=1,setup_cmd="./build.sh std",checks=c,
 not_applicable=[dict(property="C18",reason="A pure function of its input: no schedule, clock, fault, I/O or interleaving takes part, so there is nothing to simulate.")],
 notes="No hooks in /repo: the driver is generic over embedded-hal's i2c::WriteRead + i2c::Write, which is the seam the simulator uses. Findings are in known_findings.txt.")
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1); open("/verif/MANIFEST.json","a").write("\n")
