"""Reference model of a community card poker table, written from the rules.

Used as an oracle: it is fed the configuration, the seats' stacks, the button and
the bets, and predicts what the dealer has to report.  It shares no code with the
code under test and never reads its internal state.
"""
import math
from fractions import Fraction

INF = float("inf")
HALF = Fraction(1, 2)


def expand(value, n):
    return list(value) if isinstance(value, list) else [value] * n


def is_inf(value):
    return value == "inf" or value == INF


class Cfg:
    """Normalised view of a configuration dictionary."""

    def __init__(self, config):
        self.raw = config
        self.n = config["num_players"]
        self.streets = config["num_streets"]
        self.blinds = expand(config["blinds"], self.n)
        self.antes = expand(config["antes"], self.n)
        self.big_blind = self.blinds[1]
        self.sizes = [
            INF if is_inf(r) else r for r in expand(config["raise_sizes"], self.streets)
        ]
        self.caps = [
            INF if is_inf(r) else r for r in expand(config["num_raises"], self.streets)
        ]
        self.board = expand(config["num_community_cards"], self.streets)
        self.hole = config["num_hole_cards"]
        self.suits, self.ranks = config["num_suits"], config["num_ranks"]
        self.hand = config["num_cards_for_hand"]
        self.mandatory = config["mandatory_num_hole_cards"]
        self.start = config["start_stack"]
        self.low = config.get("low_end_straight", True)
        self.order = config.get("order")


class Outcome:
    """What one bet has to result in."""

    __slots__ = ("paid", "folded", "full_raise", "raised")

    def __init__(self, paid, folded, full_raise, raised):
        self.paid, self.folded = paid, folded
        self.full_raise, self.raised = full_raise, raised


def resolve(bet, stack, call, lo, hi):
    """(amount, folds) for a bet given the offered sizes; nearest, ties down."""
    want = max(0, bet if isinstance(bet, int) else Fraction(bet))
    options = {0, call, min(max(math.ceil(want - HALF), lo), hi)}
    amount = min(options, key=lambda a: (abs(a - want), a))
    folds = call > 0 and (amount < call or bet < 0)
    return (0 if folds else amount), folds


class Hand:
    """One hand from the forced bets to the end of the betting."""

    def __init__(self, cfg, stacks, button):
        self.cfg, self.n = cfg, cfg.n
        self.button = button
        self.start = list(stacks)
        self.stacks = list(stacks)
        self.live = [s > 0 for s in stacks]
        self.contrib = [0] * self.n
        self.level = [0] * self.n
        self.street = 0
        self.acted = [False] * self.n
        self.raises = 0
        self.increment = cfg.big_blind
        self.over = False
        self.showdown = False
        self.board_count = cfg.board[0]
        first = button if self.n == 2 else self.next_live(button)
        self.first = first
        for amounts, to_level in ((cfg.antes, False), (cfg.blinds, True)):
            for i in range(self.n):
                seat = (first + i) % self.n
                if self.live[seat]:
                    self.pay(seat, min(amounts[i], self.stacks[seat]), to_level)
        self.turn = self.next_live(self.next_live(first))

    def next_live(self, seat):
        for i in range(1, self.n + 1):
            s = (seat + i) % self.n
            if self.live[s]:
                return s
        return seat

    def pay(self, seat, amount, to_level=True):
        self.stacks[seat] -= amount
        self.contrib[seat] += amount
        if to_level:
            self.level[seat] += amount

    @property
    def pot(self):
        return sum(self.contrib)

    def outstanding(self, seat):
        return max(self.level) - self.level[seat]

    def raise_closed(self, seat):
        return self.raises >= self.cfg.caps[self.street] or (
            self.raises > 0 and self.outstanding(seat) < self.increment
        )

    def offers(self):
        """(call, min_raise, max_raise) of the player to act."""
        need = self.outstanding(self.turn)
        stack = self.stacks[self.turn]
        size = self.cfg.sizes[self.street]
        if size == "pot":
            hi = self.pot + 2 * need
            lo = min(max(self.cfg.big_blind, self.increment + need), hi)
        elif size == INF:
            hi = stack
            lo = max(self.cfg.big_blind, self.increment + need)
        else:
            lo = hi = size + need
        if self.raise_closed(self.turn):
            lo = hi = 0
        return min(need, stack), min(lo, stack), min(hi, stack)

    def act(self, bet):
        """Applies a bet of the player to act, returns its Outcome."""
        seat = self.turn
        call, lo, hi = self.offers()
        amount, folds = resolve(bet, self.stacks[seat], call, lo, hi)
        raised = amount > call
        size = self.cfg.sizes[self.street]
        need_full = self.increment if size in ("pot", INF) else size
        full = raised and amount - call >= need_full
        if folds:
            self.live[seat] = False
        if full:
            self.increment = amount - call
            self.raises += 1
        self.pay(seat, amount)
        self.acted[seat] = True
        self.turn = self.next_live(seat)
        self.finish_action()
        return Outcome(amount, folds, full, raised)

    def street_closed(self):
        top = max(self.level)
        return all(
            not live or stack == 0 or (acted and level == top)
            for live, stack, acted, level in zip(
                self.live, self.stacks, self.acted, self.level
            )
        )

    def can_bet(self):
        return sum(live and stack > 0 for live, stack in zip(self.live, self.stacks))

    def finish_action(self):
        if sum(self.live) == 1:
            self.over = True
            return
        if not self.street_closed():
            return
        while True:
            self.street += 1
            if self.street >= self.cfg.streets:
                self.over = self.showdown = True
                return
            self.board_count += self.cfg.board[self.street]
            if self.can_bet() > 1:
                break
        self.level = [0] * self.n
        self.acted = [False] * self.n
        self.raises = 0
        self.increment = self.cfg.big_blind
        self.turn = self.next_live(self.button)

    def done_flags(self):
        if self.over:
            return [True] * self.n
        return [not l or s == 0 for l, s in zip(self.live, self.stacks)]

    def running_payouts(self):
        return [0 if l else -c for l, c in zip(self.live, self.contrib)]


def pots(contrib, live, strengths):
    """[(chips, winners)]: pots in the order of the levels, best hand first.

    Chips are layered by total contribution; every layer is contested by the
    remaining players who paid for it.  Layers with the same winners are one pot.
    Layers nobody remaining paid for join the highest contested pot.
    """
    levels = sorted(set(c for c in contrib if c))
    out = []
    below = 0
    for level in levels:
        chips = sum(min(c, level) - min(c, below) for c in contrib)
        below = level
        rivals = [i for i, l in enumerate(live) if l and contrib[i] >= level]
        if rivals:
            best = max(strengths[i] for i in rivals)
            winners = tuple(i for i in rivals if strengths[i] == best)
        else:
            winners = out[-1][1] if out else ()
        if out and out[-1][1] == winners:
            out[-1][0] += chips
        else:
            out.append([chips, winners])
    merged = {}
    for chips, winners in out:
        merged[winners] = merged.get(winners, 0) + chips
    return [(chips, winners) for winners, chips in merged.items()]


def settle(contrib, live, strengths, button):
    """Chips awarded to every seat at showdown, odd chips included."""
    n = len(contrib)
    award = [0] * n
    for chips, winners in pots(contrib, live, strengths):
        share, odd = divmod(chips, len(winners))
        for i in winners:
            award[i] += share
        if odd:
            award[min(winners, key=lambda i: (i - button - 1) % n)] += odd
    return award
