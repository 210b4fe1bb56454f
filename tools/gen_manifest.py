#!/usr/bin/env python3
"""Regenerate MANIFEST.json from properties.jsonl and the monitors that exist."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("differential monitor of the acceleration structures against an independent scan", "every hit of kd-tree and simple container compared with an f64 reference and the library's own per-shape queries"),
 "C02": ("metamorphic monitor intersect vs intersect_p", "both queries compared on the same rays for shapes, lights, containers and scenes"),
 "C03": ("online monitor against an f64 reference geometry", "hit decision, parameter and point; cases within rounding of silhouettes are excused and counted"),
 "C04": ("assertion monitor on every reported interaction", "unit normals, orientation, tangent frame, outgoing direction, surface coordinates"),
 "C05": ("monitor of spawned rays under adversarial scales", "spawned rays re-intersected with the surfaces they leave"),
 "C06": ("assertion monitor on bounding boxes with f64 reference", "containment, tightness, transform and ray/box interval"),
 "C07": ("monitor against f64 matrices", "algebraic laws of transforms on random and degenerate inputs"),
 "C08": ("monitor of generated camera rays against an f64 pinhole model", "all camera parameters randomised"),
 "C09": ("reference-sequence monitor (exact integer Halton)", "every value the sampler hands out compared with the exact radical inverse"),
 "C10": ("statistical and contract monitor of samplers and recorded workers", "sample counts, ranges, camera samples, chi-square uniformity, stream distinctness between workers"),
 "C11": ("offline monitor of the film state against an exact accumulation", "film state read through hooks after sequential and concurrent merges"),
 "C12": ("assertion monitor of the tile iterator", "disjoint cover, tile size, minimal sampled area"),
 "C13": ("monitor of the bytes received by hostile writers", "every byte compared with the exact encoding; short, interrupted and failing writes injected"),
 "C14": ("fault injection with a monitor of the file system", "stale contents and storage failures (ENOSPC, EFBIG, EACCES) injected"),
 "C15": ("offline checker over recorded event logs under injected delays", "exactly-once conservation from sampler, camera, scene and film events"),
 "C16": ("differential monitor of film state across thread counts and injected schedules", "film sums compared between single- and multi-threaded renders"),
 "C17": ("fault injection into every component with a termination and file-system monitor", "a panic injected at every kind of component and event"),
 "C18": ("statistical monitor of sampled directions against reported density", "binned z-scores and total mass"),
 "C19": ("assertion monitor of sampled scattering", "sampled value and density compared with evaluation"),
 "C20": ("conservation monitor (numerical albedo)", "directional albedo by two independent estimators"),
 "C21": ("metamorphic monitor exchanging directions", "f(a,b) against f(b,a)"),
 "C22": ("monitor against f64 mirror/Snell/Fresnel formulas", "directions and weights of smooth materials"),
 "C23": ("statistical and consistency monitor of area-light sampling", "uniformity, pdf equality, normalisation and orientation"),
 "C24": ("monitor of visibility queries against f64 occlusion", "visibility of area and distant lights"),
 "C25": ("statistical monitor of rendered radiance against closed forms", "Lambert polygon form factor and cosine law"),
 "C26": ("statistical monitor of rendered radiance against closed forms", "mirror/glass chains, furnaces"),
 "C27": ("stress workload with crash and invalid-sample monitors", "random valid scenes rendered with overflow checks and debug assertions on"),
 "C28": ("monitor of evaluated textures and material parameters", "recorded values against the mathematical definition"),
 "C29": ("monitor against an f64 Torrance-Sparrow GGX model", "values of rough metal, plastic and glass"),
 "C30": ("ThreadSanitizer and Miri on real renders", "data races and undefined behaviour in executed renders"),
 "C31": ("monitor of scene construction with recording shapes and lights", "conservation of shapes, lights, mesh triangles"),
}
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    have = os.path.exists(os.path.join(R, "harness/src/bin/%s.rs" % i.lower())) or os.path.exists(os.path.join(R, "tools/run_%s.py" % i.lower()))
    if not have:
        na.append({"property": i, "reason": "check not built yet"})
        continue
    t, n = T[i]
    checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i, "technique": "runtime monitoring: " + t, "level": "fault_enumeration" if i in ("C14", "C17") else "exploration",
        "level_note": n + ". Holds for the executions observed (counts in the evidence file); trusts the f64 oracle and the tolerances stated in DESIGN.md."})
json.dump({"version": 1, "setup_cmd": "sh tools/setup.sh",
  "hooks": {"guard": "pt_verif, pt_verif_film", "enable": "RUSTFLAGS='--cfg pt_verif' (film and integrator state: also '--cfg pt_verif_film') when building /repo as a path dependency of /verif/harness", "source_commits": ["5fb41bd", "b02435d"]},
  "checks": checks, "not_applicable": na}, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
