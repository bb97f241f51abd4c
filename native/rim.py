"""C27 on the real code: places of the boxes and street bets on the page, and
the outline itself."""
import math
import random
import re
from xml.etree import ElementTree as et

from native.cases import *  # noqa: F401,F403

from clubs.render import graphic


def outline(w, h, f):
    """point at the fraction f of the outline of a w x h rectangle with round
    ends, clockwise on the screen from the bottom centre, seen from its centre"""
    s, r = w - h, h / 2.0
    t = (f % 1) * (2 * s + 2 * math.pi * r)
    if t < s / 2:
        return -t, r
    t -= s / 2
    if t < math.pi * r:
        return -s / 2 - r * math.sin(t / r), r * math.cos(t / r)
    t -= math.pi * r
    if t < s:
        return t - s / 2, -r
    t -= s
    if t < math.pi * r:
        return s / 2 + r * math.sin(t / r), -r * math.cos(t / r)
    t -= math.pi * r
    return s / 2 - t, r


def edge(x, y, w, h, f):
    """point of a rectangle at a fraction of its outline, to two decimals"""
    cls = getattr(graphic, "_RoundedRectangle", None)
    if cls is None or not hasattr(cls, "edge"):
        return  # a private helper: the page decides
    try:
        rect = cls(x, y, w, h)
    except TypeError:
        return
    px, py = rect.edge(f)
    qx, qy = outline(w, h, f)
    cx, cy = x + w / 2.0, y + h / 2.0
    tol = 0.0051 + 1e-9 * (abs(x) + abs(y) + w)
    need(abs(px - qx - cx) <= tol and abs(py - qy - cy) <= tol,
         "C27: point of the outline at a fraction of its length")


def num(v, d=0.0):
    return d if v is None else float(v)


def middle(e):
    return (num(e.get("x")) + num(e.get("width")) / 2.0, num(e.get("y")) + num(e.get("height")) / 2.0)


def worst(w, h, pts):
    n = len(pts)
    return max(max(abs(a - b) for a, b in zip(p, outline(w, h, k / float(n)))) for k, p in enumerate(pts))


def fits(pts):
    """smallest distance of the points from places on some outline"""
    n = len(pts)
    h0 = 2 * pts[0][1]
    if h0 <= 0:
        return 1e9
    best = (1e9, h0, h0)
    # widths at least the height, heights close to twice the first ordinate
    if n >= 3:
        wide = max([abs(p[0]) for p in pts] + [h0])
        cand = [h0 + k * (4 * wide - h0) / 400.0 for k in range(401)] if n == 3 else [
            max(h0, 2 * wide * (1 + k / 200.0)) for k in range(-20, 200)]
    else:
        cand = [2 * h0]
    for w in cand:
        best = min(best, (worst(w, h0, pts), w, h0))
    step = 4.0 if n != 3 else 10.0
    while step > 0.01:
        _, w, h = best
        new = min([(worst(max(w + a * step, h + b * step), h + b * step, pts), max(w + a * step, h + b * step),
                    h + b * step) for a in (-1, -0.5, 0, 0.5, 1) for b in (-0.3, -0.1, 0, 0.1, 0.3)
                   if h + b * step > 0])
        if new < best:
            best = new
        else:
            step /= 2
    return best[0]


def page(n, h, c):
    """centres of the boxes and street bets lie on outlines around the table"""
    root = et.fromstring(re.sub(r"^<\?xml[^>]*\?>", "", str(graphic._SVGPoker(n, h, c).base_svg).strip()))
    kids = list(root)
    table = [e for e in kids if e.get("class") == "table"]
    if len(table) != 1:
        raise HarnessError("table of the page")
    cx, cy = middle(table[0])
    by = {e.get("id"): e for e in kids if e.get("id") is not None}
    for what, label in (("boxes", "%d"), ("street bets", "street-commit-%d")):
        at = [by.get(label % i) for i in range(n)]
        need(all(e is not None for e in at), "C27: %s of all players are placed on the page" % what)
        pts = []
        for e in at:
            x, y = middle(e)
            pts.append((x - cx, y - cy))
        need(abs(pts[0][0]) <= 0.75 and pts[0][1] > 0, "C27: %s start at the bottom centre" % what)
        need(fits(pts) <= 0.75, "C27: %s lie on an outline around the table at equal distances, clockwise" % what)


CASES = dict(edge=edge, page=page)
run_script = make_run_script(CASES)


def explore(job):
    t = Tally(job, CASES)
    rng = random.Random(job["seed"])
    part, parts = job.get("part", 0), job.get("parts", 1)
    sizes = [(n, 2, 5) for n in range(1, 26)] + [(n, h, c) for n in (2, 3, 5, 6, 9, 10) for h in (0, 1, 4, 6)
                                                 for c in (0, 3, 8)] + [(30, 2, 5), (40, 2, 5)]
    for k, s in enumerate(sizes):
        if k % parts == part and not t.over():
            t.run("page", *s)
    fr = sorted(set([k / float(n) for n in range(1, 24) for k in range(n)]))
    for w, h in [(100, 100), (1000, 650), (675, 365), (3, 2), (500, 1), (2, 2)]:
        for f in fr[part::parts]:
            if not t.over():
                t.run("edge", 0, 0, w, h, f)
    while not t.over():
        h = rng.choice([rng.uniform(0.5, 50), rng.randrange(1, 1000), rng.uniform(50, 900)])
        w = rng.choice([h, h + rng.uniform(0, 1), h * rng.uniform(1, 5), h + rng.randrange(0, 1000)])
        f = rng.choice([rng.random(), rng.randrange(0, 12) / 12.0, rng.uniform(0, 3), 0.0])
        t.run("edge", rng.choice([0, rng.uniform(-500, 500)]), rng.choice([0, rng.uniform(-500, 500)]), w, h, f)
        if t.n % 2000 == 0:
            t.run("page", rng.randrange(1, 30), rng.randrange(0, 7), rng.randrange(0, 11))
    return t.result()
