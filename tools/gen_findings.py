"""Writes known_findings.jsonl: one line per repaired defect, from the "fix:"
commits in /repo and the table of properties below."""
import json, subprocess
PROPS = """2295de9 C23|c7d396d C23|ad478fc C25|6071fab C24|546589d C07|b548662 C09|0a217e9 C03|98c9bb6 C07|81d93a1 C06|b1b645a C07|cc78f70 C10|eb78926 C08|cd46b8d C08|d3fb236 C19|b6875f8 C07|31e7f29 C15|fe66a4e C11|41a5fb7 C12|b4a3c82 C13|251a404 C13|819e666 C14|ad95e77 C16|05412ec C16|9c2387c C16|545cf66 C17|48cac41 C18|ba095d0 C18|f9f1bea C18|dd46adc C18|dbb3e3d C30|12e1446 C30|0674d4b C30|643ebef C27|78179a0 C27|87da9fe C29|9cc77fe C29|09fa699 C29|1dc0bf2 C28|d514195 C28|27afd89 C28|decff38 C29|39ab87b C32|7791513 C32|8df7e4f C34|0f81697 C34|4608185 C22|645cd5c C20|25aa163 C20|d7860be C20|3013def C20|0b05198 C20|d221f11 C20|7543296 C20|6b4be70 C20|f3c858e C21|230c31c C21|96f6fcc C21|ffd2c05 C21|38c4dcd C21|efc89a1 C21|5b99bac C21|5f3fd04 C21|198f045 C21|4a66efa C21|8655b8b C01|1726336 C35|f270d50 C35|609623b C35|82d48dd C36|b11802d C36|7d23cf1 C36|413ab6b C36|9cf42b2 C36|7695db5 C36|93980da C36|0475211 C20|4508a91 C38|da930c2 C13|f9c4a10 C05|fdeabdf C21"""
table = dict(x.split() for x in PROPS.split("|"))
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%H %s"], text=True).splitlines()
out = []
for line in log:
    h, s = line.split(" ", 1)
    if not s.startswith("fix: "): continue
    p = next((v for k, v in table.items() if h.startswith(k)), None)
    if p is None:
        print("no property for", h[:7], s); continue
    out.append({"property": p, "status": "fixed", "commit": h[:7], "what": f"fixed: property={p} {h[:7]} {s[5:]}"})
open("/verif/known_findings.jsonl", "w").write("".join(json.dumps(o) + "\n" for o in out))
print(len(out), "entries for", len(table))
