"""prints the table of planted bugs of DESIGN.md from seeded/*/meta.json"""
import json, glob, os, re
print("| seed | property | files changed | what has to happen for it to show |\n|---|---|---|---|")
for d in sorted(glob.glob("seeded/*"), key=lambda p: (len(os.path.basename(p)), p)):
    m = json.load(open(d + "/meta.json"))
    f = sorted(set(re.findall(r"^\+\+\+ b/torchdyn/(\S+)", open(d + "/patch.diff").read(), re.M)))
    n = " ".join(m["needs"].split())
    print("| %s | %s | %s | %s |" % (os.path.basename(d), m["property"], ", ".join(f), n.replace("|", "/")))
