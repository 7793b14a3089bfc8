"""Rewrites the list of planted bugs at the end of DESIGN.md."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
# those that the checks missed at first, with what was added
LATE = {
    "c15-slot": "missed at first; C15 got the cases with reloads in the middle of runs",
    "c24-unmap": "missed at first; C24 damages stored chunks now",
    "c29-intr": "C29 got bodies ended by BaseException",
    "c27-link": "C27 modifies restored files afterwards",
}
out = []
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    out.append("* **%s** -- %s.  Needs %s.  Caught by %s%s." % (
        d, m["what_it_breaks"].rstrip("."), m["needs"].rstrip("."), m["property"],
        " (%s)" % LATE[d] if d in LATE else ""))
MARK = "<!-- seeds -->\n"
p = V + "/DESIGN.md"
s = open(p).read()
if MARK not in s:
    s = s.rstrip("\n") + "\n\n" + MARK
open(p, "w").write(s.split(MARK)[0] + MARK + "\n".join(out) + "\n")
