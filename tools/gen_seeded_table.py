"""Writes the table of planted changes into DESIGN.md (between the markers)."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# what had to be strengthened before the check saw it (nothing: it saw it at once)
STRONGER = {
    "C04-window-cap": "occasional long series", "C06-block": "books of up to 1050 samples", "C01-clock-expiry": "histories of up to 1100 bars",
    "C03-many-bets": "books of several hundred bets", "C17-float-time": "books of several hundred samples",
    "C10-winsorised": "histories of several hundred bars", "C02-sorted-events": "events in any order",
    "C07-partial-results": "trainings on parts of the samples",
    "C12-side-from-proba": "features of a tiny magnitude", "C18-spread-floor": "bars with a wide range",
    "C20-same-output": "frames corrected in place", "C20-weights-order": "rows in another order than time",
    "C10-vpin-zero-reset": "bars with an enormous volume", "C20-fit-index": "frames that miss one bar",
    "C20-sticky-weights": "retraining with other samples and without weights", "C21-train-block": "the reference knows the spans of the train rows only",
    "C21-union-rows": "more interleavings of threads and equally long train sets",
    "C14-labels-on-self": "callers stopped at one line while others make whole calls",
}
d = os.path.join(HERE, "seeded")
rows = ["| change | check | needs | strengthened for it |", "|---|---|---|---|"]
for b in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, b, "meta.json")))
    rows.append(f"| {b} | {m['property']} | {m['needs'].strip()} | {STRONGER.get(b, '')} |")
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
s = re.sub(r"<!-- seeded -->.*<!-- /seeded -->", lambda _: "<!-- seeded -->\n" + "\n".join(rows) + "\n<!-- /seeded -->", s, flags=re.S)
open(p, "w").write(s)
print(len(rows) - 2, "changes")
