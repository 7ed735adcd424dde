"""Copies src/geometry/Shape.cpp without its one function that needs mapbox wagyu (not installable here).

    python3 cut_wagyu.py IN OUT

Only the #include of wagyu and the body of Shape::removeNearSelfIntersections are blanked; line numbers stay.
Nothing is put in their place: the function is undefined, so whatever calls it does not link."""

import re
import sys

src, dst = sys.argv[1:]
lines = open(src, encoding="utf-8").read().split("\n")


def only(pattern):
    found = [i for i, line in enumerate(lines) if re.match(pattern, line)]
    if len(found) > 1:
        sys.exit(f"{src}: {pattern} matches {len(found)} times")
    return found[0] if found else None


include = only(r"\s*#\s*include\s*<mapbox/geometry/wagyu/wagyu\.hpp>")
start = only(r"Shape Shape::removeNearSelfIntersections\(\) const\s*$")
if include is not None:
    lines[include] = ""
if start is not None:
    end = next((i for i in range(start, len(lines)) if lines[i].startswith("}")), None)
    if end is None:
        sys.exit(f"{src}: end of removeNearSelfIntersections not found")
    # Without a use of wagyu the function needs no cutting.
    if any("mapbox::" in line for line in lines[start : end + 1]):
        tail = lines[end][1:]
        lines[start : end + 1] = [""] * (end - start) + [tail]
with open(dst, "w", encoding="utf-8") as f:
    f.write(f'#line 1 "{src}"\n' + "\n".join(lines))
