"""Reference poker hand ranking, written from the rules of poker only.

Knows nothing about prime products, lookup tables or integer hand ranks.  A hand
is a list of (rank, suit) pairs with rank 0..12 (deuce..ace) and suit 0..3.
"""
import itertools
from collections import Counter
from math import factorial

CATS = ["sf", "fk", "fh", "fl", "st", "tk", "tp", "pa", "hc"]
LONG = {
    "sf": "straight flush", "fk": "four of a kind", "fh": "full house",
    "fl": "flush", "st": "straight", "tk": "three of a kind", "tp": "two pair",
    "pa": "pair", "hc": "high card",
}
RANKS = "23456789TJQKA"
SUITS = "SHDC"
SUIT_CHARS = {"S": "\u2660", "H": "\u2665", "D": "\u2666", "C": "\u2663"}


def comb(n, k):
    if k < 0 or n < 0 or k > n:
        return 0
    return factorial(n) // factorial(k) // factorial(n - k)


def deck_ranks(ranks):
    """A deck with n ranks uses the n highest ranks."""
    return list(range(13 - ranks, 13))


def straight_top(rank_list, ranks, low):
    """Height of the straight formed by distinct ranks, None if not a straight."""
    rs = sorted(rank_list)
    if len(set(rs)) != len(rs):
        return None
    if rs[-1] - rs[0] == len(rs) - 1:
        return rs[-1]
    if low and rs[-1] == 12:
        lowest = deck_ranks(ranks)[: len(rs) - 1]
        if rs[:-1] == lowest:
            return lowest[-1]  # ace counts low
    return None


def key(hand, suits, ranks, low=True):
    """(category, tie break tuple); a greater tie break is the better hand."""
    n = len(hand)
    rs = [r for r, _ in hand]
    counts = sorted(((m, r) for r, m in Counter(rs).items()), reverse=True)
    shape = tuple(m for m, _ in counts)
    tie = tuple(r for _, r in counts)
    distinct = len(counts) == n
    flush = n >= 3 and suits >= 2 and len({s for _, s in hand}) == 1
    top = straight_top(rs, ranks, low) if n >= 3 and distinct else None
    if flush:
        return ("sf", (top,)) if top is not None else ("fl", tie)
    if top is not None:
        return "st", (top,)
    if shape[0] == 4:
        return "fk", tie
    if shape[0] == 3 and len(shape) > 1 and shape[1] == 2:
        return "fh", tie
    if shape[0] == 3:
        return "tk", tie
    if shape[0] == 2 and len(shape) > 1 and shape[1] == 2:
        return "tp", tie
    if shape[0] == 2:
        return "pa", tie
    return "hc", tie


def shapes(suits, ranks, n):
    """All rank multisets of n cards possible in the deck, as tuples."""
    for combo in itertools.combinations_with_replacement(deck_ranks(ranks), n):
        if max(Counter(combo).values()) <= suits:
            yield combo


def frequencies(suits, ranks, n, low=True):
    """Exact number of n card hands of every category."""
    out = dict.fromkeys(CATS, 0)
    for combo in shapes(suits, ranks, n):
        mult = Counter(combo)
        ways = 1
        for m in mult.values():
            ways *= comb(suits, m)
        distinct = len(mult) == n
        top = straight_top(combo, ranks, low) if n >= 3 and distinct else None
        if n >= 3 and suits >= 2 and distinct:
            out["sf" if top is not None else "fl"] += suits
            ways -= suits
        if ways:
            rep = [(r, None) for r in combo]
            cat = key(rep, 1, ranks, low)[0]
            out[cat] += ways
    return out


class Ranking:
    """Total preorder of hands of one deck, better hands compare greater."""

    def __init__(self, suits, ranks, n, low=True, order=None, freq=None):
        self.suits, self.ranks, self.n, self.low = suits, ranks, n, low
        self.freq = freq if freq is not None else frequencies(suits, ranks, n, low)
        if order is None:
            cats = sorted((c for c in CATS if self.freq[c]), key=lambda c: self.freq[c])
        else:
            cats = [c for c in order if self.freq[c]]
        self.cats = cats  # best first
        self.pos = {c: len(cats) - i for i, c in enumerate(cats)}

    def strength(self, hand):
        cat, tie = key(hand, self.suits, self.ranks, self.low)
        return self.pos[cat], tie

    def best(self, hole, community, mandatory=0):
        """Strength of the best legal hand, None if there are too few cards."""
        best = None
        for hand in legal_hands(hole, community, self.n, mandatory):
            s = self.strength(hand)
            if best is None or s > best:
                best = s
        return best


def legal_hands(hole, community, n, mandatory=0):
    if mandatory:
        for h in itertools.combinations(hole, mandatory):
            for c in itertools.combinations(community, n - mandatory):
                yield list(h) + list(c)
    else:
        for h in itertools.combinations(list(hole) + list(community), n):
            yield list(h)


def parse(card):
    """(rank, suit) of a card of the code under test, from its printed form."""
    text = str(card)
    suit = {v: i for i, v in enumerate(SUIT_CHARS[s] for s in SUITS)}
    return RANKS.index(text[0]), suit[text[1]]


def name(rs):
    return RANKS[rs[0]] + SUITS[rs[1]].lower()
