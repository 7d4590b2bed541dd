"""Tells which suit a drawn outline shows."""
import math
import re

NUMBER = re.compile(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?")
ARGUMENTS = {"M": 2, "L": 2, "H": 1, "V": 1, "Q": 4, "C": 6, "A": 7}


class Unknown(Exception):
    """An outline of a kind this reader does not know."""


def arc(x0, y0, rx, ry, turn, large, sweep, x1, y1):
    """Points on an elliptical arc (SVG 1.1, appendix F.6)."""
    if (x0, y0) == (x1, y1):
        return []
    rx, ry, turn = abs(rx), abs(ry), math.radians(turn)
    if not rx or not ry:
        return [(x1, y1)]
    cos, sin = math.cos(turn), math.sin(turn)
    dx, dy = (x0 - x1) / 2, (y0 - y1) / 2
    x, y = cos * dx + sin * dy, cos * dy - sin * dx
    small = (x / rx) ** 2 + (y / ry) ** 2
    if small > 1:
        rx, ry = rx * math.sqrt(small), ry * math.sqrt(small)
    part = (rx * y) ** 2 + (ry * x) ** 2
    scale = math.sqrt(max(0.0, ((rx * ry) ** 2 - part) / part))
    if bool(large) == bool(sweep):
        scale = -scale
    mx, my = scale * rx * y / ry, -scale * ry * x / rx
    cx, cy = cos * mx - sin * my + (x0 + x1) / 2, sin * mx + cos * my + (y0 + y1) / 2
    first = math.atan2((y - my) / ry, (x - mx) / rx)
    span = math.atan2((-y - my) / ry, (-x - mx) / rx) - first
    if sweep and span < 0:
        span += 2 * math.pi
    if not sweep and span > 0:
        span -= 2 * math.pi
    out = []
    for i in range(1, 33):
        angle = first + span * i / 32
        ex, ey = rx * math.cos(angle), ry * math.sin(angle)
        out.append((cos * ex - sin * ey + cx, sin * ex + cos * ey + cy))
    return out


def outline(path):
    """The closed outlines of a path as lists of points."""
    shapes, points = [], []
    x = y = 0.0
    for letter, text in re.findall(r"([A-Za-z])([^A-Za-z]*)", path):
        numbers = [float(n) for n in NUMBER.findall(text)]
        kind, shift = letter.upper(), letter.islower()
        if kind == "Z":
            if points:
                x, y = points[0]
            continue
        if kind not in ARGUMENTS:
            raise Unknown(letter)
        size = ARGUMENTS[kind]
        if not numbers or len(numbers) % size:
            raise Unknown(path)
        for i in range(0, len(numbers), size):
            a = numbers[i:i + size]
            if shift:
                moved = {"H": [x], "V": [y], "A": [0] * 5 + [x, y]}.get(kind, [x, y] * 3)
                a = [p + q for p, q in zip(a, moved)]
            if kind == "M" and i == 0:
                points = []
                shapes.append(points)
            if kind in "ML":
                points.append((a[0], a[1]))
            elif kind == "H":
                points.append((a[0], y))
            elif kind == "V":
                points.append((x, a[0]))
            elif kind == "A":
                points += arc(x, y, *a)
            else:
                knots = [(x, y)] + list(zip(a[0::2], a[1::2]))
                for step in range(1, 17):
                    t, row = step / 16, knots
                    while len(row) > 1:
                        row = [(p[0] + t * (q[0] - p[0]), p[1] + t * (q[1] - p[1]))
                               for p, q in zip(row, row[1:])]
                    points.append(row[0])
            x, y = points[-1]
    return shapes


def widths(shapes):
    """Width at 1 %, 2 %, ... 99 % of the height, as a share of the whole width."""
    every = [p for shape in shapes for p in shape]
    if len(every) < 3:
        raise Unknown("no area")
    top, bottom = min(p[1] for p in every), max(p[1] for p in every)
    left, right = min(p[0] for p in every), max(p[0] for p in every)
    if bottom - top < 1 or right - left < 1:
        raise Unknown("no area")
    out = []
    for share in range(1, 100):
        at = top + (bottom - top) * share / 100
        cuts = [p[0] + (at - p[1]) / (q[1] - p[1]) * (q[0] - p[0])
                for shape in shapes for p, q in zip(shape, shape[1:] + shape[:1])
                if (p[1] <= at) != (q[1] <= at)]
        out.append((max(cuts) - min(cuts)) / (right - left) if cuts else 0)
    return out


def suit(path):
    """The suit an outline shows: a heart and a diamond stand on a point, the others on a foot."""
    wide = widths(outline(path))
    foot, head, middle = wide[96], wide[6], wide.index(max(wide)) + 1
    if foot > 0.3:
        if 0.24 < head < 0.31:
            raise Unknown("a spade or a club")
        return "\u2663" if head > 0.3 else "\u2660"
    if middle < 42:
        return "\u2665"
    if 42 <= middle <= 58:
        return "\u2666"
    raise Unknown(f"standing on a point, widest at {middle} %")
