"""prints the table of planted changes for DESIGN.md"""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print("| change | property | needs | caught by |\n|---|---|---|---|")
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(f))
    print("| %s | %s | %s | %s |" % (f.split("/")[-2], m["property"], m["needs"].replace("|", "/"),
                                    m.get("caught_by", m["property"])))
