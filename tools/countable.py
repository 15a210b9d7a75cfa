"""Which planted bugs change only lines that our own /repo commits added (those do not count)."""
import os, re, subprocess, sys
BASE = "2960615"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
blame = {}


def ours(f):
    if f not in blame:
        base = set(subprocess.run(["git", "-C", "/repo", "rev-list", BASE], capture_output=True, text=True).stdout.split())
        out = subprocess.run(["git", "-C", "/repo", "blame", "-l", "-s", "HEAD", "--", f], capture_output=True, text=True).stdout
        blame[f] = [l.split()[0].lstrip("^")[:39] not in {b[:39] for b in base} for l in out.splitlines()]
    return blame[f]


for d in sorted(os.listdir(V + "/seeded")):
    f, ok, ins = None, False, False
    for line in open(f"{V}/seeded/{d}/patch.diff"):
        if line.startswith("+++ "):
            f = line[6:].strip()
        elif line.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", line)[1])
        elif line.startswith("---") or line.startswith("diff") or line.startswith("index"):
            pass
        elif line.startswith("-"):
            ok = ok or not ours(f)[n - 1]
            n += 1
        elif line.startswith("+"):
            ins = True
        else:
            n += 1
    if not ok:
        print(d, "only inserts" if ins and not any(l.startswith("-") and not l.startswith("---") for l in open(f"{V}/seeded/{d}/patch.diff")) else "OURS")
