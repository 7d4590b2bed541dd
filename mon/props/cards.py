"""Monitors of cards, decks and the hand evaluator."""
import itertools
import math
import random
import string
import sys
from collections import Counter

import clubs
from clubs import error

from mon import gen, hands

CONFIGS = [
    (suits, ranks, n, low)
    for suits in range(1, 5) for ranks in range(1, 14) for n in range(1, 6)
    for low in (False, True) if suits * ranks >= n
]


def card(rs):
    return clubs.Card(hands.name(rs))


def text(cards):
    return " ".join(hands.name(c) for c in cards)


def full_deck(suits, ranks):
    return [(r, s) for r in hands.deck_ranks(ranks) for s in range(suits)]


def seen(cards):
    return [hands.parse(c) for c in cards]


# --------------------------------------------------------------------- C14
class DeckModel:
    """A pile of cards; the order after a shuffle is observed, then tracked."""

    def __init__(self, suits, ranks):
        self.full = full_deck(suits, ranks)
        self.top = []
        self.cards = None

    def shuffled(self, cards, ctx, what):
        ctx.check(sorted(cards) == sorted(self.full),
                  "{}: deck of {} cards instead of {}: {}", what, len(cards), len(self.full),
                  text(cards))
        ctx.check(cards[: len(self.top)] == self.top, "{}: prepared top {} came out as {}",
                  what, text(self.top), text(cards[: len(self.top)]))
        self.cards = list(cards)


def deck_operations(rng, index, ctx):
    decks = []
    log = []
    ctx.trace = {"operations": log}

    def new():
        suits, ranks = rng.randint(1, 4), rng.randint(1, 13)
        deck, model = clubs.Deck(suits, ranks), DeckModel(suits, ranks)
        log.append(["new", suits, ranks])
        model.shuffled(seen(deck.cards), ctx, f"new deck {suits}x{ranks}")
        decks.append((deck, model))

    new()
    for _ in range(rng.randint(10, 40)):
        if len(decks) < 3 and rng.random() < 0.1:
            new()
        which = rng.randrange(len(decks))
        deck, model = decks[which]
        op = rng.choice(["draw", "draw", "draw", "shuffle", "shuffle", "trick", "untrick",
                         "foreign"])
        ctx.count(op + "s")
        if op == "draw":
            n = rng.choice([0, 1, 1, 2, 3, 5, len(model.cards), 60])
            log.append([which, "draw", n])
            got = seen(deck.draw(n) if rng.random() < 0.8 or n != 1 else deck.draw())
            want = model.cards[:n]
            del model.cards[:n]
            ctx.check(got == want, "draw({}) gave {} instead of {}", n, text(got), text(want))
            if n > len(want):
                ctx.count("draws_beyond_the_end")
        elif op == "shuffle":
            log.append([which, "shuffle"])
            result = deck.shuffle()
            ctx.check(result is deck, "shuffle() returned {!r}", result)
            model.shuffled(seen(deck.cards), ctx, "shuffle")
            if model.top:
                ctx.count("prepared_shuffles")
        elif op == "trick":
            top = rng.sample(model.full, rng.choice(
                [0, 1, 2, len(model.full) // 2, len(model.full)]) if len(model.full) > 2
                else rng.randint(0, len(model.full)))
            log.append([which, "trick", text(top)])
            result = deck.trick([card(c) for c in top])
            ctx.check(result is deck, "trick() returned {!r}", result)
            model.top = top
            deck.shuffle()
            model.shuffled(seen(deck.cards), ctx, "shuffle after trick")
            ctx.count("prepared_shuffles")
        elif op == "untrick":
            log.append([which, "untrick"])
            result = deck.untrick()
            ctx.check(result is deck, "untrick() returned {!r}", result)
            model.top = []
            deck.shuffle()
            model.shuffled(seen(deck.cards), ctx, "shuffle after untrick")
        else:
            foreign = [c for c in full_deck(4, 13) if c not in model.full]
            if foreign:
                log.append([which, "trick foreign"])
                try:
                    deck.trick([card(rng.choice(foreign))])
                except Exception:
                    ctx.count("foreign_cards_refused")
                else:
                    ctx.fail("a card which is not in the deck was put on top of it")
        # every deck still holds exactly what it should, in order
        for other, (d, m) in enumerate(decks):
            now = seen(d.cards)
            ctx.check(now == m.cards, "after {} deck {} holds {} instead of {}", log[-1],
                      other, text(now), text(m.cards))
            ctx.check(len(d) == len(m.cards), "len(deck) is {} for {} cards", len(d),
                      len(m.cards))
            printed = str(d)
            ctx.check(printed == "[" + ",".join(str(card(c)) for c in m.cards) + "]",
                      "deck of {} prints as {}", text(m.cards), printed)
            ctx.count("decks_compared")
    ctx.evaluated()
    ctx.nontrivial(log)
    ctx.sample(log[:12])


# --------------------------------------------------------------------- C15
def chi_z(observed, expected_each, df):
    """Wilson-Hilferty z score of a chi square statistic."""
    return chi_cells(observed, [expected_each] * len(observed), df)


def chi_cells(observed, expected, df):
    chi = sum((o - e) ** 2 / e for o, e in zip(observed, expected))
    if df <= 0:
        return 0.0
    t = (chi / df) ** (1 / 3)
    return (t - (1 - 2 / (9 * df))) / math.sqrt(2 / (9 * df))


LIMIT_Z = 7.0


class Orders:
    """No order of a big deck is ever seen twice."""

    def __init__(self, ctx, size, what):
        self.ctx, self.what = ctx, what
        self.seen = set() if size >= 20 else None

    def add(self, cards):
        if self.seen is None:
            return
        label = bytes(cards)
        self.ctx.check(label not in self.seen, "{} came in the same order twice within {} "
                       "shuffles", self.what, len(self.seen) + 1)
        self.seen.add(label)
        self.ctx.count("orders_compared")


def fairness(rng, index, ctx):
    kind = ["permutations", "positions", "prepared", "dealer", "follow", "history",
            "neighbours"][index % 7]
    ctx.trace = {"kind": kind}
    rounds = 60000 if ctx.quick else 300000
    if kind in ("permutations", "follow"):
        suits, ranks = rng.choice([(1, 4), (2, 2), (4, 1), (1, 5), (1, 3), (3, 1)])
        deck = clubs.Deck(suits, ranks)
        counts, previous, pairs = Counter(), None, Counter()
        for _ in range(rounds):
            order = tuple(seen(deck.shuffle().cards))
            counts[order] += 1
            if previous is not None:
                pairs[previous[0], order[0]] += 1
            previous = order
        size = suits * ranks
        total = math.factorial(size)
        cells = [counts.get(p, 0) for p in itertools.permutations(full_deck(suits, ranks))]
        z = chi_z(cells, rounds / total, total - 1)
        report(ctx, f"orders of a {suits}x{ranks} deck", z, rounds)
        firsts = [pairs.get((a, b), 0) for a in full_deck(suits, ranks)
                  for b in full_deck(suits, ranks)]
        z = chi_z(firsts, (rounds - 1) / size ** 2, size ** 2 - 1)
        report(ctx, f"top cards of successive shuffles of a {suits}x{ranks} deck", z, rounds)
    elif kind in ("positions", "prepared"):
        suits, ranks = rng.choice([(4, 13), (4, 9), (2, 3), (3, 5), (4, 4)])
        deck = clubs.Deck(suits, ranks)
        full = full_deck(suits, ranks)
        top = []
        if kind == "prepared":
            top = rng.sample(full, rng.randint(1, len(full) - 3))
            deck.trick([card(c) for c in top])
        rest = [c for c in full if c not in top]
        place = {str(card(c)): i for i, c in enumerate(rest)}
        m = len(rest)
        counts = [[0] * m for _ in range(m)]
        near = [[0] * m for _ in range(m)]
        met = Orders(ctx, m, f"a {suits}x{ranks} deck with {len(top)} cards on top")
        rounds //= 4
        for _ in range(rounds):
            cards = [place[str(c)] for c in deck.shuffle().cards[len(top):]]
            met.add(cards)
            for position, which in enumerate(cards):
                counts[which][position] += 1
            for a, b in zip(cards, cards[1:]):
                near[a][b] += 1
        z = chi_z([c for row in counts for c in row], rounds / m, (m - 1) ** 2)
        report(ctx, f"positions in a {suits}x{ranks} deck with {len(top)} cards on top", z,
               rounds)
        cells = [near[a][b] for a in range(m) for b in range(m) if a != b]
        z = chi_z(cells, rounds / m, len(cells) - 1)
        report(ctx, f"neighbours in a {suits}x{ranks} deck with {len(top)} cards on top", z,
               rounds)
    elif kind in ("history", "neighbours"):
        suits, ranks = rng.choice([(4, 13), (4, 9), (2, 3), (3, 5), (4, 4), (1, 5)])
        what = f"a {suits}x{ranks} deck"
        deck = clubs.Deck(suits, ranks)
        full = full_deck(suits, ranks)
        place = {str(card(c)): i for i, c in enumerate(full)}
        m = len(full)
        old, new = None, None
        if kind == "history":
            # whatever was done with the deck since its last shuffle
            source, relation = deck, "positions before and after use and shuffle"
        else:
            # another deck of the same program shuffled just before
            source, relation = clubs.Deck(suits, ranks), "positions in two decks"
        moves = [[0] * m for _ in range(m)]
        firsts = [[0] * m for _ in range(m + 1)]
        met = Orders(ctx, m, what)
        rounds //= 6
        for _ in range(rounds):
            drawn = 0
            if kind == "history":
                drawn = rng.choice([0, rng.randint(1, m), rng.randint(1, m), m])
                deck.draw(drawn)
                if rng.random() < 0.3:
                    deck.trick([card(c) for c in rng.sample(full, rng.randint(1, m))])
                    if rng.random() < 0.7:
                        old = [place[str(c)] for c in deck.shuffle().cards]
                        drawn = rng.randint(0, m)
                        deck.draw(drawn)
                    deck.untrick()
            else:
                old = [place[str(c)] for c in source.shuffle().cards]
            new = [place[str(c)] for c in deck.shuffle().cards]
            met.add(new)
            firsts[drawn][new[0]] += 1
            if old is not None:
                before = {which: position for position, which in enumerate(old)}
                for position, which in enumerate(new):
                    moves[before[which]][position] += 1
            old = new
        counted = sum(moves[0])
        z = chi_z([c for row in moves for c in row], counted / m, (m - 1) ** 2)
        report(ctx, f"{relation} of {what}", z, rounds)
        used = [row for row in firsts if sum(row) >= 5 * m]
        expected = [sum(row) / m for row in used for _ in range(m)]
        z = chi_cells([c for row in used for c in row], expected, len(used) * (m - 1))
        report(ctx, f"top cards of {what} by the number of cards drawn before", z, rounds)
    else:
        n = rng.choice([2, 3, 6])
        config = dict(gen.preset(rng, "NO_LIMIT_HOLDEM_TWO_PLAYER"), num_players=n,
                      blinds=0, num_suits=2, num_ranks=7, num_hole_cards=1,
                      num_community_cards=[1, 1, 0, 0], num_cards_for_hand=1)
        dealer = clubs.Dealer(**config)
        full = full_deck(2, 7)
        place = {str(card(c)): i for i, c in enumerate(full)}
        seats = [[0] * 14 for _ in range(n + 1)]
        again, last = [[0] * 14 for _ in range(14)], None
        rounds //= 4
        for _ in range(rounds):
            obs = dealer.reset(reset_stacks=True)
            now = place[str(dealer.hole_cards[0][0])]
            if last is not None:
                again[last][now] += 1
            last = now
            for _ in range(rng.randint(0, 4)):
                if obs["action"] >= 0:
                    obs = dealer.step(rng.choice([-1, 0, obs["call"], obs["max_raise"]]))[0]
            for seat, hole in enumerate(dealer.hole_cards):
                seats[seat][place[str(hole[0])]] += 1
            seats[n][place[str(dealer.community_cards[0])]] += 1
        z = chi_z([c for row in again for c in row], (rounds - 1) / 196, 195)
        report(ctx, "cards of one seat in successive hands", z, rounds)
        for seat, row in enumerate(seats):
            z = chi_z(row, rounds / 14, 13)
            report(ctx, f"cards dealt to {'the board' if seat == n else f'seat {seat}'}", z,
                   rounds)
    ctx.evaluated()


def report(ctx, what, z, rounds):
    ctx.count("statistics")
    ctx.count("shuffles", rounds)
    ctx.most("z", round(z, 3))
    ctx.nontrivial(what, round(z, 6))
    ctx.sample({"statistic": what, "shuffles": rounds, "z": round(z, 3)}, 5)
    ctx.check(z < LIMIT_Z, "{}: not uniform over {} shuffles, z = {:.1f}", what, rounds, z)


# --------------------------------------------------------------------- C16
def card_identity(rng, index, ctx):
    """Case 0..12: one rank, all suits; case 13: pairs; case 14+: bad strings, case 24+:
    the other characters of unicode."""
    if index < 13:
        primes = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41]
        for s in range(4):
            name = hands.RANKS[index] + hands.SUITS[s]
            want = (1 << (16 + index)) | (1 << (12 + s)) | (index << 8) | primes[index]
            for spelled in {name, name.lower(), name[0] + name[1].lower(),
                            name[0].lower() + name[1]}:
                ctx.trace = {"card": spelled}
                one = clubs.Card(spelled)
                ctx.count("cards")
                ctx.nontrivial(spelled)
                ctx.check(str(one) == hands.RANKS[index] + hands.SUIT_CHARS[hands.SUITS[s]],
                          "Card({!r}) prints as {}", spelled, one)
                ctx.check(one.rank == hands.RANKS[index] and
                          one.suit == hands.SUIT_CHARS[hands.SUITS[s]],
                          "Card({!r}) has rank {} and suit {}", spelled, one.rank, one.suit)
                ctx.check(int(one) == want, "Card({!r}) is {:#x} instead of {:#x}", spelled,
                          int(one), want)
                ctx.check(str(one) in repr(one), "repr of {} is {!r}", spelled, one)
                mask = rng.getrandbits(32)
                shift = rng.randint(0, 31)
                ctx.check(one & mask == want & mask and mask & one == want & mask,
                          "{} & {:#x}", spelled, mask)
                ctx.check(one | mask == want | mask and mask | one == want | mask,
                          "{} | {:#x}", spelled, mask)
                ctx.check(one >> shift == want >> shift and one << shift == want << shift,
                          "{} shifted by {}", spelled, shift)
                ctx.evaluated()
        ctx.sample(hands.RANKS[index] + "SHDC")
    elif index == 13:
        everything = [(name, card(name)) for name in full_deck(4, 13)]
        again = [(name, card(name)) for name in full_deck(4, 13)]
        for (a, x), (b, y) in itertools.product(everything, again):
            ctx.trace = {"pair": [hands.name(a), hands.name(b)]}
            ctx.count("pairs")
            ctx.evaluated()
            ctx.nontrivial(a, b)
            ctx.check((x == y) is (a == b), "{} == {} is {}", hands.name(a), hands.name(b),
                      x == y)
            ctx.check((x != y) is (a != b), "{} != {} is {}", hands.name(a), hands.name(b),
                      x != y)
            ctx.check(x & y == int(x) & int(y) and x | y == int(x) | int(y),
                      "{} and {} combine to {} and {}", hands.name(a), hands.name(b), x & y,
                      x | y)
        deck = clubs.Deck(4, 13)
        ctx.check(len({int(c) for c in deck.full_deck}) == 52, "cards of a deck coincide")
        for c in deck.full_deck:
            ctx.check(int(c) == int(card(hands.parse(c))), "card {} of the deck is {:#x}", c,
                      int(c))
    elif index >= 24:
        # every character there is, as a rank and as a suit (surrogates too)
        good = {"rank": set(hands.RANKS + hands.RANKS.lower()),
                "suit": set(hands.SUITS + hands.SUITS.lower())}
        for code in range(index - 24, sys.maxunicode + 1, 8):
            odd = chr(code)
            for spelled, part in ((odd + rng.choice("shdcSHDC"), "rank"),
                                  (rng.choice("23456789TJQKAtjqka") + odd, "suit")):
                try:
                    clubs.Card(spelled)
                    accepted = True
                except (error.InvalidRankError, error.InvalidSuitError) as exc:
                    accepted = False
                    wrong = "rank" if isinstance(exc, error.InvalidRankError) else "suit"
                    if wrong != part:
                        ctx.fail(f"{wrong} of {spelled!r} refused")
                if accepted is not (odd in good[part]):
                    ctx.trace = {"string": spelled}
                    ctx.fail(f"{spelled!r} accepted: {accepted}")
        ctx.count("characters_tried", code // 8)
        ctx.nontrivial(index)
        ctx.evaluated()
    else:
        part = index - 14
        letters = string.printable
        for a in letters[part::10]:
            for b in letters:
                ctx.trace = {"string": a + b}
                good_rank, good_suit = a.upper() in hands.RANKS, b.upper() in hands.SUITS
                ctx.evaluated()
                try:
                    clubs.Card(a + b)
                except error.InvalidRankError:
                    ctx.check(not good_rank, "rank of {!r} refused", a + b)
                    ctx.count("strings_refused")
                except error.InvalidSuitError:
                    ctx.check(not good_suit, "suit of {!r} refused", a + b)
                    ctx.count("strings_refused")
                else:
                    ctx.check(good_rank and good_suit, "{!r} accepted as a card", a + b)
                    ctx.count("strings_accepted")


# --------------------------------------------------------------------- C17, C19
def trips_finding(suits, n, order):
    return suits == 3 and n >= 4 and order is None


def with_wrong_trips(freq, n):
    out = dict(freq)
    out["tk"] = freq["tk"] // 3 ** (n - 3)
    return out


def representatives(rng, suits, ranks, n, thorough=False):
    """One hand per rank pattern (with and without flush), suits chosen at random."""
    for combo in hands.shapes(suits, ranks, n):
        count = Counter(combo)
        distinct = len(count) == n
        if distinct and n > 0:
            yield [(r, s) for s in [rng.randrange(suits)] for r in combo], True
            if suits == 1:
                continue
            if n == 1:
                continue
        for _ in range(3 if thorough else 1):
            while True:
                hand = []
                for r, m in count.items():
                    hand += [(r, s) for s in rng.sample(range(suits), m)]
                if n < 2 or len({s for _, s in hand}) > 1 or len(hand) != len(set(hand)):
                    break
            rng.shuffle(hand)
            yield hand, False


def observe(ctx, rng, evaluator, suits, ranks, n, low):
    """[(rank reported, category, tie break, hand)] of every hand pattern."""
    rows = []
    for hand, _ in representatives(rng, suits, ranks, n, not ctx.quick):
        cut = rng.randint(0, n)
        cards = [card(c) for c in hand]
        rank = evaluator.evaluate(cards[:cut], cards[cut:])
        cat, tie = hands.key(hand, suits, ranks, low)
        rows.append((rank, cat, tie, hand))
    ctx.count("hands_evaluated", len(rows))
    return rows


def observed_positions(rows):
    """Position of the categories by the best rank seen, best first."""
    best = {}
    for rank, cat, _, _ in rows:
        best[cat] = min(rank, best.get(cat, rank))
    return best


def expected_cats(freq, order, best):
    if order is not None:
        return [c for c in order if freq[c]]
    # equally rare categories may be ranked either way round
    return sorted((c for c in freq if freq[c]), key=lambda c: (freq[c], best.get(c, 0)))


def mismatch(rows, cats):
    """First pair of hands the evaluator orders differently, as text."""
    pos = {c: -i for i, c in enumerate(cats)}
    rows = sorted(rows, key=lambda row: (row[0]))
    for (ra, ca, ta, ha), (rb, cb, tb, hb) in zip(rows, rows[1:]):
        a, b = (pos[ca], ta), (pos[cb], tb)
        if ra == rb and a != b:
            return f"{text(ha)} ({ca}) and {text(hb)} ({cb}) are both ranked {ra}"
        if ra != rb and a == b:
            return f"{text(ha)} and {text(hb)} ({ca}) are equal, ranked {ra} and {rb}"
        if ra != rb and a < b:
            return (f"{text(ha)} ({ca}) is ranked {ra}, ahead of {text(hb)} ({cb}) "
                    f"ranked {rb}")
    return None


def pick(rng, index, ctx):
    """Configuration and order of case index: all decks by rarity first."""
    suits, ranks, n, low = CONFIGS[(index * 151) % len(CONFIGS)]
    order = None
    if index >= len(CONFIGS):
        order = gen.CAT_NAMES[:]
        rng.shuffle(order)
    return suits, ranks, n, low, order


def bystanders(rng, suits, ranks, n, low, order):
    """Evaluators of the same deck by other rules, in use in the same program."""
    for other_low, other in ((not low, order), (low, rng.sample(gen.CAT_NAMES, 9)),
                             (not low, None)):
        if rng.random() < 0.4:
            evaluator = clubs.Evaluator(suits, ranks, n, low_end_straight=other_low,
                                        order=other)
            for _ in range(3):
                hand = rng.sample(full_deck(suits, ranks), n)
                evaluator.get_rank_class(evaluator.evaluate([card(c) for c in hand], []))
            str(evaluator)


def hand_order(rng, index, ctx):
    suits, ranks, n, low, order = pick(rng, index, ctx)
    ctx.trace = {"suits": suits, "ranks": ranks, "cards": n, "low": low, "order": order}
    if suits * ranks >= n:
        bystanders(rng, suits, ranks, n, low, order)
    given = {"low_end_straight": low, "order": order}
    if low and rng.random() < 0.5:
        del given["low_end_straight"]
    if order is None and rng.random() < 0.5:
        del given["order"]
    evaluator = clubs.Evaluator(suits, ranks, n, **given)
    rows = observe(ctx, rng, evaluator, suits, ranks, n, low)
    freq = gen.freq(suits, ranks, n, low)
    best = observed_positions(rows)
    wrong = mismatch(rows, expected_cats(freq, order, best))
    where = f"deck of {suits} suits and {ranks} ranks, {n} card hands, order {order}"
    if wrong and trips_finding(suits, n, order):
        known = mismatch(rows, expected_cats(with_wrong_trips(freq, n), order, best))
        if known is None:
            ctx.finding("trips-in-3-suit-decks", f"{where}: {wrong}")
            ctx.count("finding_seen")
            wrong = None
    ctx.check(wrong is None, "{}: {}", where, wrong)
    ctx.count("decks_ranked")
    # the table of ranks on its own
    lookup = clubs.LookupTable(suits, ranks, n, **given)
    for rank, _, _, dealt in rng.sample(rows, min(len(rows), 40)):
        alone = lookup.lookup([card(c) for c in dealt])
        ctx.check(alone == rank, "{}: LookupTable ranks {} as {}, Evaluator as {}", where,
                  text(dealt), alone, rank)
        ctx.count("ranks_looked_up")
    ctx.count("decks_by_rarity" if order is None else "decks_by_custom_order")
    ctx.evaluated(len(rows))
    for rank, cat, tie, _ in rows:
        ctx.nontrivial(suits, n, order is None, low, cat, tie, ranks)
    ctx.sample({"deck": ctx.trace, "best": text(min(rows)[3]), "worst": text(max(rows)[3])})


def rank_classes(rng, index, ctx):
    suits, ranks, n, low, order = pick(rng, index, ctx)
    ctx.trace = {"suits": suits, "ranks": ranks, "cards": n, "low": low, "order": order}
    if suits * ranks >= n:
        bystanders(rng, suits, ranks, n, low, order)
    evaluator = clubs.Evaluator(suits, ranks, n, low_end_straight=low, order=order)
    where = f"deck of {suits} suits and {ranks} ranks, {n} card hands, order {order}"
    freq = gen.freq(suits, ranks, n, low)
    total = sum(freq.values())
    ctx.check(total == hands.comb(suits * ranks, n), "the reference miscounts")
    rows = observe(ctx, rng, evaluator, suits, ranks, n, low)
    for rank, cat, _, hand in rows:
        got = evaluator.get_rank_class(rank)
        ctx.check(got == hands.LONG[cat], "{}: {} is called {} instead of {}", where,
                  text(hand), got, hands.LONG[cat])
    ctx.count("classes_named", len(rows))
    listed = []
    for part in str(evaluator).split(" > "):
        name, percent = part.rsplit(" (", 1)
        listed.append((name, percent.rstrip(")")))
    short = {v: k for k, v in hands.LONG.items()}
    ctx.check(all(name in short for name, _ in listed), "{}: described as {}", where,
              evaluator)

    def describe(counts):
        whole = sum(counts.values())
        return {hands.LONG[c]: "{:.4%}".format(counts[c] / whole)
                for c in counts if counts[c]}

    def wrong(counts):
        if dict(listed) != describe(counts) or len(listed) != len(dict(listed)):
            return f"described as {evaluator}, frequencies are {describe(counts)}"
        cats = [short[name] for name, _ in listed]
        if order is not None:
            if cats != [c for c in order if counts[c]]:
                return f"order {order} became {evaluator}"
        elif any(counts[a] > counts[b] for a, b in zip(cats, cats[1:])):
            return f"{evaluator} is not ordered by rarity: {counts}"
        seen_order = sorted(best, key=best.get)
        if cats != seen_order:
            return f"described as {evaluator} but hands rank {seen_order}"
        return None

    best = observed_positions(rows)
    problem = wrong(freq)
    if problem and suits == 3 and n >= 4:
        if wrong(with_wrong_trips(freq, n)) is None:
            ctx.finding("trips-in-3-suit-decks", f"{where}: {problem}")
            ctx.count("finding_seen")
            problem = None
    ctx.check(problem is None, "{}: {}", where, problem)
    ctx.count("descriptions")
    worst = max(row[0] for row in rows)
    for rank in (-1, -rng.randint(2, 10 ** 6), 10 ** 7, worst + 10 ** 5):
        try:
            name = evaluator.get_rank_class(rank)
        except error.InvalidHandRankError:
            ctx.count("ranks_refused")
        else:
            ctx.fail(f"{where}: rank {rank} is called {name}")
    ctx.evaluated(len(rows))
    ctx.nontrivial(suits, ranks, n, low, order)
    ctx.sample({"deck": ctx.trace, "described": str(evaluator)})


# --------------------------------------------------------------------- C18
def best_hand(rng, index, ctx):
    while True:
        if rng.random() < 0.4:
            suits, ranks, n = 4, rng.choice([13, 9]), 5
        else:
            suits, ranks, n = rng.randint(1, 4), rng.randint(1, 13), rng.randint(1, 5)
        many = rng.random() < 0.2
        hole_size = rng.choice([0, 1, 2, 2, 3, 4, 5] if not many else range(10))
        board_size = rng.choice([0, 1, 3, 4, 5, 5] if not many else range(11))
        mandatory = rng.choice([0, 0, 1, 2, 2, 3, n])
        if hole_size + board_size > suits * ranks or n > suits * ranks:
            continue
        if mandatory > min(hole_size, n) or hole_size + board_size < n:
            continue
        if mandatory and n - mandatory > board_size:
            continue
        if many and hands.comb(hole_size + board_size, n) > 800:
            continue
        break
    low = rng.random() < 0.7
    order = gen.CAT_NAMES[:]
    rng.shuffle(order)
    order = None if rng.random() < 0.7 else order
    ctx.trace = {"suits": suits, "ranks": ranks, "cards": n, "mandatory": mandatory,
                 "low": low, "order": order}
    evaluator = clubs.Evaluator(suits, ranks, n, mandatory, low, order)
    plain = clubs.Evaluator(suits, ranks, n, 0, low, order)
    full = full_deck(suits, ranks)
    for _ in range(30):
        dealt = rng.sample(full, hole_size + board_size)
        if rng.random() < 0.3 and suits > 1:
            # flushes and straights are rare: prefer one suit or a run
            dealt.sort(key=lambda c: (c[1] if rng.random() < 0.5 else c[0]))
        hole, board = dealt[:hole_size], dealt[hole_size:]
        ctx.trace["hole"], ctx.trace["board"] = text(hole), text(board)
        h, b = [card(c) for c in hole], [card(c) for c in board]
        got = evaluator.evaluate(h, b)
        ctx.check(seen(h) == hole and seen(b) == board,
                  "evaluating changed the cards handed in: {} {}", text(seen(h)),
                  text(seen(b)))
        options = {}
        for legal in hands.legal_hands(hole, board, n, mandatory):
            options[plain.evaluate([], [card(c) for c in legal])] = legal
        best = min(options)
        ctx.count("evaluations")
        ctx.count("legal_hands", len(options))
        if mandatory:
            ctx.count("evaluations_with_mandatory_cards")
        if board_size > 5:
            ctx.count("evaluations_of_big_boards")
        if hole_size > 5:
            ctx.count("evaluations_of_big_hands")
        if mandatory:
            unrestricted = plain.evaluate(h, b)
            if unrestricted < best:
                ctx.count("mandatory_cards_mattered")
        ctx.check(got == best, "hole {} board {} using {} of {} cards: ranked {} but {} ranks "
                  "{}", text(hole), text(board), mandatory, n, got, text(options[best]), best)
        oracle = [hands.key(x, suits, ranks, low) for x in (options[best],)]
        if gen.rarity_is_settled(suits, ranks, n, low) or order is not None:
            ranking = hands.Ranking(suits, ranks, n, low, order,
                                    gen.freq(suits, ranks, n, low))
            want = ranking.best(hole, board, mandatory)
            mine = ranking.strength(options[best])
            ctx.check(mine == want, "hole {} board {} using {} of {}: best hand {} is no "
                      "better than {}", text(hole), text(board), mandatory, n,
                      text(options[best]), oracle)
            ctx.count("compared_with_reference")
        for _ in range(2):
            rng.shuffle(h)
            rng.shuffle(b)
            again = evaluator.evaluate(h, b)
            ctx.check(again == got, "hole {} board {}: ranked {} and, in another order, {}",
                      text(seen(h)), text(seen(b)), got, again)
        ctx.nontrivial(suits, n, mandatory, hole, board)
        ctx.evaluated()
    ctx.sample(dict(ctx.trace))


__all__ = ["random"]
