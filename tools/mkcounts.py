"""Fills the last two columns of the table in DESIGN.md from the output of quick runs: mkcounts.py DIR with <id>.log in it."""
import os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(ROOT, "DESIGN.md")
out = []
for line in open(path):
    m = re.match(r"\| ([A-Z]\d\d) \|", line)
    if m and line.count("|") == 8:
        cells = line.rstrip("\n").split("|")
        log = os.path.join(sys.argv[1], m.group(1) + ".log")
        text = open(log).read() if os.path.exists(log) else ""
        done = re.search(r"\[\w+ +([\d.]+)s\] violations: 0", text)
        if done:
            n = re.findall(r": (\d+) executions, (\d+) steps judged, \d+ rejected", text)
            cells[6] = f" {sum(int(a) for a, _ in n)} / {sum(int(b) for _, b in n)} "
            cells[7] = f" {round(float(done.group(1)))} s "
        line = "|".join(cells) + "\n"
    out.append(line)
open(path, "w").write("".join(out))
