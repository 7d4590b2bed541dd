"""Random tables and players: configurations, stacks and betting styles."""
from mon import hands

CAT_NAMES = list(hands.CATS)
PRESETS = [
    "LEDUC_TWO_PLAYER", "KUHN_TWO_PLAYER", "KUHN_THREE_PLAYER",
    "LIMIT_HOLDEM_TWO_PLAYER", "LIMIT_HOLDEM_SIX_PLAYER", "LIMIT_HOLDEM_NINE_PLAYER",
    "NO_LIMIT_HOLDEM_TWO_PLAYER", "NO_LIMIT_HOLDEM_SIX_PLAYER",
    "NO_LIMIT_HOLDEM_NINE_PLAYER", "NO_LIMIT_HOLDEM_BB_ANTE_NINE_PLAYER",
    "POT_LIMIT_OMAHA_TWO_PLAYER", "POT_LIMIT_OMAHA_SIX_PLAYER",
    "POT_LIMIT_OMAHA_NINE_PLAYER", "SHORT_DECK_TWO_PLAYER",
    "SHORT_DECK_SIX_PLAYER", "SHORT_DECK_NINE_PLAYER",
]
_FREQ = {}


def freq(suits, ranks, n, low):
    key = (suits, ranks, n, bool(low))
    if key not in _FREQ:
        _FREQ[key] = hands.frequencies(*key)
    return _FREQ[key]


def rarity_is_settled(suits, ranks, n, low):
    """The order by rarity is unique and not subject to the known finding."""
    if suits == 3 and n >= 4:
        return False
    counts = [c for c in freq(suits, ranks, n, low).values() if c]
    return len(set(counts)) == len(counts)


def split_cards(rng, total, streets):
    out = [0] * streets
    for _ in range(total):
        out[rng.randrange(streets)] += 1
    return out


def deck_part(rng, n, streets, small=None):
    """Deck, hole cards, board and hand size that fit one another."""
    while True:
        kind = rng.random()
        if kind < 0.3 and not small:
            suits, ranks, hole, hand = 4, rng.choice([13, 13, 13, 9]), rng.choice([2, 2, 4]), 5
            board = {1: [5], 2: [3, 2], 3: [3, 1, 1], 4: [0, 3, 1, 1],
                     5: [0, 3, 1, 1, 0]}.get(streets) or [0, 3, 1, 1] + [0] * (streets - 4)
            mandatory = rng.choice([0, 2]) if hole == 4 else rng.choice([0, 0, 0, 1, 2])
        else:
            suits = rng.choice([1, 2, 3, 4, 4])
            ranks = rng.randint(1, 13)
            hole = rng.choice([1, 1, 2, 2, 3, 4, 4 if small else rng.choice([5, 6, 7])])
            hand = rng.randint(1, 5)
            board = split_cards(rng, rng.choice([0, 1, 2, 3, 3, 5, 5, 4 if small else rng.choice([4, 6, 7, 8])]), streets)
            mandatory = rng.choice([0, 0, 0, 1, 2, 3])
        if sum(board) + n * hole > suits * ranks:
            continue
        if hand > hole + sum(board) or mandatory > min(hole, hand):
            continue
        if mandatory and hand - mandatory > sum(board):
            continue
        if n * hands.comb(hole + sum(board), hand) > 2000 and rng.random() < 0.9:
            continue  # slow to judge
        return suits, ranks, hole, board, hand, mandatory


def blinds(rng, n, unit):
    kind = rng.randrange(8)
    if kind == 0:
        return 0
    if kind == 1:
        return unit
    if kind == 2:
        return [rng.randint(0, 2 * unit) for _ in range(n)]
    if kind == 3 and n > 2:
        out = [unit, 2 * unit, 4 * unit][:n]
    elif kind == 4:
        out = [0, 2 * unit]
    else:
        out = [max(1, unit // 2) if unit > 1 else unit, 2 * unit if unit > 1 else 2]
    return out + [0] * (n - len(out))


def antes(rng, n, unit):
    kind = rng.randrange(7)
    if kind < 3:
        return 0
    if kind == 3:
        return max(1, unit // 2)
    if kind == 4:
        return [0, unit] + [0] * (n - 2)
    if kind == 5:
        return [rng.randint(0, unit + 1) for _ in range(n)]
    return unit


def sizes(rng, streets, unit):
    def one():
        kind = rng.randrange(6)
        if kind < 2:
            return rng.choice(["inf", float("inf")])
        if kind < 4:
            return "pot"
        return rng.choice([1, unit, 2 * unit, 2 * unit + 1, 3 * unit, 5 * unit])
    if rng.random() < 0.5:
        return one()
    return [one() for _ in range(streets)]


def caps(rng, streets):
    def one():
        if rng.random() < 0.4:
            return rng.choice(["inf", float("inf")])
        return rng.choice([0, 1, 1, 2, 2, 3, 4, 2.0, rng.randint(5, 12)])
    if rng.random() < 0.5:
        return one()
    return [one() for _ in range(streets)]


def config(rng, players=None, small=None, order=None):
    n = players or rng.choice([2, 2, 2, 3, 3, 3, 4, 5, 6, 6, 7, 8, 9, 10])
    streets = rng.choice([1, 2, 3, 4, 4, 5]) if rng.random() < 0.95 else rng.randint(6, 9)
    suits, ranks, hole, board, hand, mandatory = deck_part(rng, n, streets, small)
    unit = rng.choice([1, 1, 2, 2, 3, 5, 10, 25])
    low = rng.random() < 0.7
    if order is None:
        shuffled = CAT_NAMES[:]
        rng.shuffle(shuffled)
        wanted = rng.random() < 0.25 or not rarity_is_settled(suits, ranks, hand, low)
        order = shuffled if wanted else None
    scale = rng.choice([2, 5, 10, 20, 50, 100])
    stack = max(1, unit * scale + rng.randint(-3, 3))
    if rng.random() < 0.05:
        big = rng.choice([10 ** 9, 2 ** 53 + 1, 10 ** 18 + 7])
        stack, unit = big, rng.choice([unit, big // 97])
    if isinstance(board, list) and len(set(board)) == 1 and rng.random() < 0.5:
        board = board[0]
    return {
        "num_players": n, "num_streets": streets,
        "blinds": blinds(rng, n, unit), "antes": antes(rng, n, unit),
        "raise_sizes": sizes(rng, streets, unit), "num_raises": caps(rng, streets),
        "num_suits": suits, "num_ranks": ranks, "num_hole_cards": hole,
        "num_community_cards": board, "num_cards_for_hand": hand,
        "mandatory_num_hole_cards": mandatory, "start_stack": stack,
        "low_end_straight": low, "order": order,
    }


def preset(rng, name=None):
    import clubs

    name = name or rng.choice(PRESETS)
    if not hasattr(clubs.configs, name):
        return config(rng)
    out = dict(getattr(clubs.configs, name))
    return {k: (list(v) if isinstance(v, list) else v) for k, v in out.items()}


def any_config(rng, **kwargs):
    if rng.random() < 0.2 and not kwargs:
        out = preset(rng)
        if rng.random() < 0.5:
            out["start_stack"] = rng.randint(1, 60)
        return out
    return config(rng, **kwargs)


def stacks(rng, n, base, unit):
    """Uneven stacks, at least two seats with chips."""
    while True:
        kind = rng.randrange(6)
        if kind == 0:
            out = [base] * n
        elif kind == 1:
            out = [rng.randint(1, max(1, base)) for _ in range(n)]
        elif kind == 2:
            out = [rng.randint(0, max(2, 3 * unit)) for _ in range(n)]
        elif kind == 3:
            out = [rng.choice([0, 1, unit, 2 * unit, base]) for _ in range(n)]
        elif kind == 4:
            out = [rng.randint(1, 12) for _ in range(n)]
        else:
            few = [rng.randint(1, max(1, base)) for _ in range(2)]
            out = [rng.choice(few) for _ in range(n)]
        if sum(s > 0 for s in out) > 1:
            return out


STYLES = ["passive", "mixed", "mixed", "aggressive", "maniac", "minraise", "fuzz",
          "caller", "shover"]


class Players:
    """Chooses bets; every seat has a style of its own."""

    def __init__(self, rng, n, style=None):
        self.rng = rng
        if style is None and rng.random() < 0.5:
            style = rng.choice(STYLES)
        self.styles = [style or rng.choice(STYLES) for _ in range(n)]

    def bet(self, obs):
        rng = self.rng
        seat = obs["action"]
        style = self.styles[seat] if 0 <= seat < len(self.styles) else "mixed"
        call, lo, hi = obs["call"], obs["min_raise"], obs["max_raise"]
        draw = rng.random()
        if style == "fuzz" or draw < 0.06:
            return self.fuzz(obs)
        if style == "passive":
            return call if draw < 0.9 else 0
        if style == "caller":
            return call if draw < 0.97 else lo
        if style == "minraise":
            return lo if draw < 0.8 and lo else call
        if style == "shover":
            return hi if draw < 0.5 else (call if draw < 0.8 else 0)
        if style == "maniac":
            return hi if draw < 0.6 else self.between(lo, hi)
        if style == "aggressive":
            if draw < 0.6:
                return self.between(lo, hi)
            return call if draw < 0.93 else 0
        if draw < 0.2:
            return 0
        if draw < 0.6:
            return call
        return self.between(lo, hi)

    def between(self, lo, hi):
        if hi <= lo:
            return hi
        if self.rng.random() < 0.5:
            return lo + min(self.rng.randint(0, hi - lo), self.rng.randint(0, hi - lo))
        return min(hi, lo + self.rng.randint(0, 5))

    def fuzz(self, obs):
        rng = self.rng
        seat = max(0, obs["action"])
        marks = [0, obs["call"], obs["min_raise"], obs["max_raise"],
                 obs["stacks"][seat], obs["pot"], sum(obs["stacks"])]
        kind = rng.randrange(9)
        mark = rng.choice(marks)
        near = mark < 2 ** 40
        if kind == 0:
            return mark + rng.choice([-2, -1, 1, 2])
        if kind == 1:
            a, b = rng.choice(marks), rng.choice(marks)
            return (a + b) // 2 + rng.choice([0, 0, 1])
        if kind == 2:
            return -rng.choice([1, 2, mark, mark + 1, 10 ** 6, 1e-9, 0.5, 1e300])
        if kind == 3:
            return rng.choice([10 ** 6, 10 ** 12, 2 * mark + 7, 1e300, 10 ** 30])
        if kind == 4 and near:
            return mark + rng.choice([-0.75, -0.25, 0.25, 0.75, -0.4, 0.4, -0.5, 0.5])
        if kind == 5 and near:
            return float(mark)
        if kind == 6 and near:  # just around the middle of two amounts
            other = rng.choice(marks)
            if other < 2 ** 40:
                return (mark + other) / 2 + rng.choice([0, 0, -0.25, 0.25, -0.49, 0.49,
                                                        0.5, -1e-6, 1e-6])
        if kind == 7 and near:
            return rng.uniform(0, 1.5 * mark + 3)
        return mark
