import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = json.load(open(os.path.join(V, "lib", "checks.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    if p not in C: continue
    c = C[p]
    checks.append(dict(property=p, quick_cmd="VERIF_TIER=quick python3 checks/%s %s" % (c["script"], p),
                       thorough_cmd="VERIF_TIER=thorough python3 checks/%s %s" % (c["script"], p),
                       technique=c["technique"], level=c["level"], level_note=c["note"], evidence_file="evidence/%s.json" % p))
na = [dict(property=p, reason=C.get("_na", {}).get(p, "check not built yet")) for p in props if p not in C]
m = dict(version=1, setup_cmd="python3 lib/build.py prod tsan",
         hooks=dict(guard="OTFFT_VERIF (reserved; no hook was needed)", enable="nothing to enable: the checks compile /repo's sources as they are, with their own flags and link-time interposition", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="All checks build the library from /repo's working tree (its own CMake compile commands) into /verif/.build. Genuine defects found and repaired are listed in known_findings.txt.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
