"""known_findings.json: entries "fixed" suppress nothing; entries "known" name the exact trace and clause."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIX = {
 "resample_histogram1d": "C04", "enclosing the whole": "C11", "spectral index -1": "C13", "position angle": "C12",
 "axis order of calculate": "C12", "view cone overlap": "C12", "background_3d_lonlat": "C17", "smooth percentile": "C05",
 "not truncated to integers": "C05", "compare_irf_cuts": "C06", "li_ma": "C07", "relative_sensitivity": "C08",
 "migration bin": "C18", "integrate_cone": "C13", "given as a list": "C10", "do not survive": "C10",
}
FIX.update(json.load(open(os.path.join(HERE, "tools", "fixmap.json"))))
KNOWN = json.load(open(os.path.join(HERE, "tools", "known.json")))
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines()
out = []
for l in log:
    h, s = l.split(" ", 1)
    if s.startswith("fix:"):
        p = sorted([(-len(k), v) for k, v in FIX.items() if k in s])
        assert p, s
        p = [p[0][1]]
        out.append(dict(status="fixed", property=p[0], commit=h, what=s[5:], line=f"fixed: property={p[0]} {h} {s[5:]}"))
json.dump(dict(findings=KNOWN + out), open(os.path.join(HERE, "known_findings.json"), "w"), indent=1)
print(len(out), "fixed,", len(KNOWN), "known")
