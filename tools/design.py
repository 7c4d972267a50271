#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from tools/design_head.md, properties.jsonl, claims.json, na.json, the evidence of the last runs (rules and
counts), tools/limits.json and seeded/*/meta.json. Run the checks first."""
import glob, json, os
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.join(here, "..")
load = lambda *p: json.load(open(os.path.join(*p)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
claims, na, limits = load(here, "claims.json"), load(here, "na.json"), load(here, "limits.json")
out = [open(os.path.join(here, "design_head.md")).read().rstrip(), "", "## Properties, one by one", ""]
skip = {"explanation", "exhaustive", "rules", "samples", "floors"}
seeds = {}
for m in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    d = json.load(open(m)); d["id"] = os.path.basename(os.path.dirname(m)); seeds.setdefault(d["property"], []).append(d)
for p in props:
    i = p["id"]
    out += [f"### {i} {p['title']}", ""]
    if i in na:
        out += [f"Not applicable: {na[i]}.", ""]; continue
    tech, note = claims[i]
    e = load(root, "evidence", i + ".json"); c = e["coverage"]
    out += [f"*Method*: {tech}.", "", "*Rules (violations name the construct that breaks one)*:", ""]
    out += [f"- {r}" for r in c["rules"]]
    counts = ", ".join(f"{v} {k.replace('_', ' ')}" for k, v in c.items() if k not in skip and isinstance(v, (int, float)) and not isinstance(v, bool) and k not in ("functions_loaded", "packages_loaded", "analysis_steps", "explored_program_states", "main_thread_roots"))
    out += ["", f"*Examined on the current tree*: {counts or 'see the evidence file'}; {e['wall_s']:.0f} s." if e["wall_s"] >= 1 else f"*Examined on the current tree*: {counts or 'see the evidence file'}; below 1 s."]
    out += ["", f"*Why the tests cannot*: {p['why_tests_cant']} The check quantifies over {p['quantifier']['text']}, because it follows every path of the source and keeps inputs, times and schedules symbolic."]
    out += ["", f"*Limits*: {note}"]
    out += [f"- {l}" for l in limits.get(i, [])]
    if seeds.get(i):
        out += ["", "*Planted bugs*: " + ", ".join(f"`{s['id']}`" for s in seeds[i]) + "."]
    out.append("")
out += ["## Planted bugs and the checks that catch them", "", open(os.path.join(here, "design_seeds.md")).read().rstrip(), "",
        "| change | property = check that catches it | what it breaks | needs |", "|---|---|---|---|"]
for i in sorted(seeds):
    for s in seeds[i]:
        cell = lambda t: " ".join(t.split()).replace("|", "\\|")
        out.append(f"| {s['id']} | {i}{'' if not s.get('also') else ', ' + s['also']} | {cell(s['what_it_breaks'])} | {cell(s['needs'])} |")
out.append("")
open(os.path.join(root, "DESIGN.md"), "w").write("\n".join(out))
print(len(out), "lines")
