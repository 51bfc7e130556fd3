"""Which seeds change only lines that were added by commits after the base."""
import os, re, subprocess, sys
base = sys.argv[1]
R = "/repo"
for s in sorted(os.listdir("/verif/seeded")):
    d = open("/verif/seeded/%s/patch.diff" % s).read()
    f = old = None; n = ok = 0
    for line in d.split("\n"):
        m = re.match(r"--- a/(.*)", line)
        if m:
            f = m.group(1)
            bl = subprocess.run(["git", "-C", R, "blame", "-s", "-l", base + "..HEAD", "--", f], capture_output=True, text=True).stdout.split("\n")
            continue
        m = re.match(r"@@ -(\d+)", line)
        if m:
            old = int(m.group(1)); continue
        if old is None or line.startswith("+++"):
            continue
        if line.startswith("-"):
            n += 1; ok += bl[old - 1].startswith("^"); old += 1
        elif line.startswith(" "):
            old += 1
    if n != ok:
        print(s, "removed", n, "original", ok)
