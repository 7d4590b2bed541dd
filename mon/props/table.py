"""Monitors of the dealer: chips, betting, order of play, dealing."""
import pickle

import clubs

from mon import drive, gen, hands, rules
from mon.drive import Monitor
from mon.worker import Violation


def names(cards):
    return "".join(hands.name(c) for c in cards) or "-"


# --------------------------------------------------------------------- C01
class Conservation(Monitor):
    def on_reset(self, obs):
        self.balance(obs, "after dealing")

    def on_step(self, step):
        self.balance(step.after, f"after bet {step.bet} of seat {step.seat}")
        if step.ended:
            self.check(step.after["pot"] == 0, "pot {} left after the hand",
                       step.after["pot"])
            self.check(sum(step.after["stacks"]) == self.game.total,
                       "stacks {} after the hand do not add up to {}",
                       step.after["stacks"], self.game.total)

    def balance(self, obs, when):
        self.ctx.count("balances")
        held = sum(obs["stacks"]) + obs["pot"]
        self.check(held == self.game.total, "{}: stacks {} + pot {} = {}, table holds {}",
                   when, obs["stacks"], obs["pot"], held, self.game.total)
        self.check(all(s >= 0 for s in obs["stacks"]), "{}: negative stack {}", when,
                   obs["stacks"])
        self.check(obs["pot"] >= 0, "{}: negative pot", when)
        self.check(all(isinstance(s, int) for s in obs["stacks"]),
                   "{}: chips are no whole numbers: {}", when, obs["stacks"])
        self.check(list(self.game.dealer.stacks) == obs["stacks"],
                   "{}: the table holds {} but reports {}", when,
                   self.game.dealer.stacks, obs["stacks"])

    def on_end(self, step):
        self.ctx.count("hands_balanced")
        if sum(1 for c in self.game.contrib if c) > 2:
            self.ctx.nontrivial(self.game.contrib, step.payouts)


def conservation(rng, index, ctx):
    game = drive.Game(ctx, rng, gen.any_config(rng), [Conservation()])
    game.session(rng.randint(2, 5))
    # play on until one player has everything: chips never appear or vanish
    if index % 4 == 0:
        total = sum(game.dealer.stacks)
        crowd = gen.Players(rng, game.cfg.n, "shover")
        for _ in range(30):
            if sum(s > 0 for s in game.dealer.stacks) < 2:
                ctx.count("tables_played_out")
                break
            game.play(crowd)
        ctx.check(sum(game.dealer.stacks) == total, "chips changed over several hands: {} "
                  "became {}", total, sum(game.dealer.stacks))
    ctx.evaluated()
    ctx.sample({"config": game.config, "hand": game.trace["hands"][-1]})


# --------------------------------------------------------------------- C02
class Settlement(Monitor):
    def on_step(self, step):
        g = self.game
        self.ctx.count("payout_vectors")
        self.check(len(step.payouts) == g.cfg.n, "{} payouts for {} players",
                   len(step.payouts), g.cfg.n)
        if not step.ended:
            want = [0 if live else -c for live, c in zip(g.live, g.contrib)]
            self.check(step.payouts == want, "running payouts {} instead of {}",
                       step.payouts, want)
            return
        self.check(sum(step.payouts) == 0, "payouts {} do not add up to zero", step.payouts)
        for seat, payout in enumerate(step.payouts):
            self.check(g.start[seat] + payout == step.after["stacks"][seat],
                       "seat {} had {}, is told {:+d} and now has {}", seat, g.start[seat],
                       payout, step.after["stacks"][seat])
            self.check(payout >= -g.contrib[seat], "seat {} loses {} but put in {}", seat,
                       -payout, g.contrib[seat])
            if not g.live[seat]:
                self.check(payout == -g.contrib[seat],
                           "seat {} folded having put in {} and is paid {:+d}", seat,
                           g.contrib[seat], payout)
                self.ctx.count("folded_seats")

    def on_end(self, step):
        self.ctx.count("hands_settled")
        if any(p > 0 for p in step.payouts):
            self.ctx.nontrivial(self.game.contrib, step.payouts)


def settlement(rng, index, ctx):
    game = drive.Game(ctx, rng, gen.any_config(rng), [Settlement()])
    game.session(rng.randint(2, 6))
    ctx.evaluated()
    ctx.sample({"config": game.config, "hand": game.trace["hands"][-1]})


# --------------------------------------------------------------------- C03, C04
class Showdown(Monitor):
    exact = False

    def on_end(self, step):
        g = self.game
        if sum(g.live) < 2:
            return
        board = g.board()
        self.check(len(board) == sum(g.cfg.board),
                   "showdown on a board of {} cards instead of {}", len(board),
                   sum(g.cfg.board))
        ranking = g.rank()
        strengths = [
            ranking.best(hole, board, g.cfg.mandatory) if live else None
            for hole, live in zip(step.holes, g.live)
        ]
        # chips won = payout + chips put in
        award = [p + c for p, c in zip(step.payouts, g.contrib)]
        pots = rules.pots(g.contrib, g.live, strengths)
        self.ctx.count("showdowns")
        self.ctx.count("pots", len(pots))
        if len(pots) > 1:
            self.ctx.count("showdowns_with_side_pots")
        if any(len(w) > 1 for _, w in pots):
            self.ctx.count("split_pots")
        scene = (f"board {names(board)}, hands "
                 f"{[names(h) if l else 'folded' for h, l in zip(step.holes, g.live)]}, "
                 f"put in {g.contrib}, button {g.button}")
        want = rules.settle(g.contrib, g.live, strengths, g.button)
        odd = 0
        floor = [0] * g.cfg.n
        most = [0] * g.cfg.n
        for chips, winners in pots:
            share, rest = divmod(chips, len(winners))
            odd += rest
            for seat in winners:
                floor[seat] += share
                most[seat] += share + rest
        if odd:
            self.ctx.count("odd_chips", odd)
            self.ctx.count("showdowns_with_odd_chips")
            for chips, winners in pots:
                if chips % len(winners):
                    after = [w for w in winners if w > g.button]
                    self.ctx.count("odd_pots_won_after_button" if after
                                   else "odd_pots_won_across_seat_zero")
        if self.exact:
            if odd:
                self.ctx.nontrivial(g.contrib, g.live, award, g.button)
                self.check(award == want, "{}: awarded {} instead of {}", scene, award, want)
        else:
            self.ctx.nontrivial(g.contrib, g.live, strengths)
            fair = all(a <= x <= b for a, x, b in zip(floor, award, most))
            self.check(fair and sum(award) == sum(want),
                       "{}: awarded {} instead of {} (odd chips may differ)", scene, award,
                       want)


class OddChips(Showdown):
    exact = True


def small_config(rng):
    """Few ranks: many ties, so pots are split often."""
    while True:
        config = gen.config(rng, players=rng.choice([2, 3, 3, 4, 5, 6, 8, 10]), small=True)
        if config["num_ranks"] <= 5 or config["num_ranks"] * config["num_suits"] <= 16:
            return config


def tie_config(rng):
    """Everybody plays the board or a deck of few ranks: ties abound."""
    config = gen.config(rng, players=rng.choice([2, 3, 3, 4, 5, 6, 8]), small=True)
    n = config["num_players"]
    ranks = rng.choice([2, 3, 4, 5, 13])
    hole = 1
    while n * hole + 4 > 4 * ranks:
        ranks += 1
    streets = config["num_streets"]
    hand = rng.choice([1, 2, 2, 3])
    config.update(
        num_suits=4, num_ranks=ranks, num_hole_cards=hole, mandatory_num_hole_cards=0,
        num_community_cards=gen.split_cards(rng, rng.choice([2, 3, 4]), streets),
        num_cards_for_hand=hand)
    order = gen.CAT_NAMES[:]
    rng.shuffle(order)
    settled = gen.rarity_is_settled(4, ranks, hand, config["low_end_straight"])
    config["order"] = None if settled and rng.random() < 0.7 else order
    return config


def stay_in(rng, n):
    """Players who rarely fold, so hands are shown down."""
    return gen.Players(rng, n, rng.choice(["caller", "maniac", "shover", "minraise",
                                           "aggressive", None]))


def showdown(rng, index, ctx):
    kind = index % 4
    config = (gen.any_config(rng) if kind < 2 else
              tie_config(rng) if kind == 2 else small_config(rng))
    game = drive.Game(ctx, rng, config, [Showdown()])
    players = stay_in(rng, game.cfg.n) if rng.random() < 0.7 else None
    game.session(rng.randint(3, 6), players=players)
    ctx.evaluated()
    ctx.sample({"config": game.config, "hand": game.trace["hands"][-1]})


def oddchips(rng, index, ctx):
    config = tie_config(rng) if index % 4 else small_config(rng)
    game = drive.Game(ctx, rng, config, [OddChips()])
    players = stay_in(rng, game.cfg.n) if rng.random() < 0.8 else None
    game.session(rng.randint(4, 8), players=players)
    ctx.evaluated()
    ctx.sample({"config": game.config, "hand": game.trace["hands"][-1]})


# --------------------------------------------------------------------- C05
class FoldOut(Monitor):
    def on_step(self, step):
        g = self.game
        left = sum(g.live)
        if left == 1:
            self.check(step.ended, "only seat {} is left but the hand goes on",
                       g.live.index(True))
        self.check(left >= 1, "everybody folded")
        if left == 1 and step.ended:
            winner = g.live.index(True)
            want = [-c for c in g.contrib]
            want[winner] += sum(g.contrib)
            self.ctx.count("uncontested_pots")
            if sum(1 for s in g.start if s) > 2:
                self.ctx.count("uncontested_multiway")
            self.ctx.nontrivial(g.contrib, winner, g.button)
            self.check(step.payouts == want,
                       "everybody but seat {} folded, put in {}, payouts {} instead of {}",
                       winner, g.contrib, step.payouts, want)
            self.check(step.after["stacks"][winner] ==
                       g.start[winner] + sum(g.contrib) - g.contrib[winner],
                       "the last player left has {} chips", step.after["stacks"][winner])
        if step.folds and left > 1:
            self.ctx.count("folds_with_others_left")


def foldout(rng, index, ctx):
    game = drive.Game(ctx, rng, gen.any_config(rng), [FoldOut()])
    for _ in range(3):
        crowd = gen.Players(rng, game.cfg.n)
        crowd.styles = [rng.choice(["passive", "mixed", "aggressive", "fuzz", "folder"])
                        for _ in range(game.cfg.n)]
        crowd = Folders(rng, crowd)
        game.session(2, players=crowd)
    ctx.evaluated()
    ctx.sample({"config": game.config, "hand": game.trace["hands"][-1]})


class Folders:
    """Some seats give up whenever they can, by a bet of zero or below."""

    def __init__(self, rng, inner):
        self.rng, self.inner = rng, inner

    def bet(self, obs):
        if self.inner.styles[obs["action"]] == "folder" or self.rng.random() < 0.25:
            return self.rng.choice([0, 0, -1, -5])
        return self.inner.bet(obs)


# --------------------------------------------------------------------- C06, C08
class Offers(Monitor):
    """Offered sizes against the rules, from the reported chips."""

    def on_reset(self, obs):
        self.compare(obs)

    def on_step(self, step):
        if step.ended:
            self.check((step.after["call"], step.after["min_raise"],
                        step.after["max_raise"]) == (0, 0, 0),
                       "bets are offered after the hand")
            return
        self.compare(step.after)

    def compare(self, obs):
        m, g = self.game.model, self.game
        seat = obs["action"]
        self.ctx.count("offers")
        call, lo, hi = obs["call"], obs["min_raise"], obs["max_raise"]
        stack = obs["stacks"][seat]
        need = max(obs["street_commits"]) - obs["street_commits"][seat]
        self.check(call == min(need, stack),
                   "seat {} with {} chips faces {} and is offered a call of {}", seat, stack,
                   need, call)
        self.check(0 <= lo <= hi <= stack or (lo == stack and hi == stack),
                   "seat {} with {} chips is offered raises from {} to {}", seat, stack, lo,
                   hi)
        if m is None or m.over or m.turn != seat:
            return
        closed = m.raises >= g.cfg.caps[m.street] or (
            m.raises > 0 and need < m.increment)
        self.sizes(obs, m, closed, need, stack)

    def sizes(self, obs, m, closed, need, stack):
        if closed:
            return
        size = self.game.cfg.sizes[m.street]
        big = self.game.cfg.big_blind
        if size == "pot":
            hi = obs["pot"] + 2 * need
            lo = min(max(big, m.increment + need), hi)
            self.ctx.count("pot_limit_offers")
        elif size == rules.INF:
            hi = stack
            lo = max(big, m.increment + need)
            self.ctx.count("no_limit_offers")
        else:
            lo = hi = size + need
            self.ctx.count("fixed_limit_offers")
        want = min(lo, stack), min(hi, stack)
        got = obs["min_raise"], obs["max_raise"]
        self.ctx.nontrivial(size, obs["pot"], obs["street_commits"], stack, m.increment)
        self.check(got == want,
                   "street {}, seat {} ({} chips, faces {}, last full raise {}, pot {}, "
                   "limit {}): raises from {} to {} offered instead of {} to {}", m.street,
                   obs["action"], stack, need, m.increment, obs["pot"], size, *got, *want)


class RaiseRights(Offers):
    """Raise cap and the right to raise again."""

    def on_reset(self, obs):
        self.full = 0
        super().on_reset(obs)

    def on_step(self, step):
        out = step.outcome
        if out is not None and out.full_raise:
            self.ctx.count("full_raises")
        elif out is not None and out.raised:
            self.ctx.count("short_raises")
        super().on_step(step)

    def compare(self, obs):
        m = self.game.model
        if m is None or m.over or m.turn != obs["action"]:
            return
        seat = obs["action"]
        stack = obs["stacks"][seat]
        need = max(obs["street_commits"]) - obs["street_commits"][seat]
        cap = self.game.cfg.caps[m.street]
        self.ctx.count("rights_checked")
        self.ctx.most("raises_on_one_street", m.raises)
        got = obs["min_raise"], obs["max_raise"]
        self.ctx.nontrivial(m.raises, cap, need, m.increment, stack, obs["street_commits"])
        if m.raises >= cap:
            self.ctx.count("capped")
            self.check(got == (0, 0), "street {}: {} of {} raises made, seat {} is offered "
                       "raises {} to {}", m.street, m.raises, cap, seat, *got)
        elif m.raises and need < m.increment:
            self.ctx.count("reraise_refused")
            self.check(got == (0, 0), "street {}: seat {} faces {}, less than the full raise "
                       "of {}, and is offered raises {} to {}", m.street, seat, need,
                       m.increment, *got)
        elif stack:
            size = self.game.cfg.sizes[m.street]
            possible = size != "pot" or obs["pot"] + 2 * need > 0
            self.check(got[1] > 0 or not possible, "street {}: {} of {} raises made, seat {} "
                       "with {} chips facing {} may not raise", m.street, m.raises, cap,
                       seat, stack, need)


def offers(rng, index, ctx):
    game = drive.Game(ctx, rng, gen.any_config(rng), [Offers()])
    players = stay_in(rng, game.cfg.n) if rng.random() < 0.5 else None
    game.session(rng.randint(2, 6), players=players)
    ctx.evaluated()
    ctx.sample({"config": game.config, "hand": game.trace["hands"][-1]})


def raise_rights(rng, index, ctx):
    config = gen.any_config(rng)
    if rng.random() < 0.5:
        config["num_raises"] = gen.caps(rng, config["num_streets"])
    game = drive.Game(ctx, rng, config, [RaiseRights()])
    for _ in range(2):
        style = rng.choice(["minraise", "aggressive", "maniac", "shover", None])
        game.session(rng.randint(1, 3), players=gen.Players(rng, game.cfg.n, style))
    ctx.evaluated()
    ctx.sample({"config": game.config, "hand": game.trace["hands"][-1]})


# --------------------------------------------------------------------- C07
class Betting(Monitor):
    def on_step(self, step):
        b, a, seat = step.before, step.after, step.seat
        self.ctx.count("bets")
        legal = {0, b["call"]} | {b["min_raise"], b["max_raise"]}
        what = ("fold" if step.folds else "check" if step.paid == 0 else
                "call" if step.paid <= b["call"] else "raise")
        self.ctx.count(what + "s")
        if step.bet not in legal and not b["min_raise"] <= step.bet <= b["max_raise"]:
            self.ctx.count("illegal_bets")
        if step.bet < 0:
            self.ctx.count("negative_bets")
        if step.bet != round(step.bet):
            self.ctx.count("fractional_bets")
        self.ctx.nontrivial(step.bet, b["call"], b["min_raise"], b["max_raise"],
                            b["stacks"][seat])
        offer = (f"seat {seat} bets {step.bet} (call {b['call']}, raise {b['min_raise']} to "
                 f"{b['max_raise']}, {b['stacks'][seat]} chips)")
        if step.ended:
            # the chips are already paid out: judge by what the others lose
            if sum(self.game.live) == 1 and sum(b["active"]) > 1:
                other = [i for i in range(len(b["active"])) if b["active"][i] and i != seat]
                self.check(len(other) == 1 and a["active"][other[0]] and not
                           a["active"][seat], "{}: should fold, players left {}", offer,
                           a["active"])
            elif not step.folds:
                self.check(a["active"] == b["active"], "{}: players left {} instead of {}",
                           offer, a["active"], b["active"])
                # somebody wins what was put in: total put in by the winners' profit
                lost = -sum(p for p in step.payouts if p < 0)
                self.check(step.payouts[seat] >= -self.game.contrib[seat] and lost <=
                           sum(self.game.contrib), "{}: {} lost", offer, lost)
        else:
            paid = b["stacks"][seat] - a["stacks"][seat]
            self.check(paid == step.paid and a["active"][seat] == (not step.folds),
                       "{}: pays {} and {}, should pay {} and {}", offer, paid,
                       "stays" if a["active"][seat] else "folds", step.paid,
                       "fold" if step.folds else "stay")
            self.check(a["pot"] == b["pot"] + step.paid, "{}: pot goes from {} to {}", offer,
                       b["pot"], a["pot"])
        for other in range(len(b["stacks"])):
            if other != seat:
                self.check(a["active"][other] == b["active"][other],
                           "{}: seat {} {}", offer, other,
                           "comes back" if a["active"][other] else "is out")
                if not step.ended:
                    self.check(a["stacks"][other] == b["stacks"][other],
                               "{}: stack of seat {} goes from {} to {}", offer, other,
                               b["stacks"][other], a["stacks"][other])
        history = getattr(self.game.dealer, "history", None)
        if history:
            last = tuple(history[-1])
            self.check(last == (seat, step.paid, step.folds),
                       "{}: recorded as {} instead of {}", offer, last,
                       (seat, step.paid, step.folds))
            self.ctx.count("records")
        # the chips of the last bet of a hand, from the record of the table
        commits = getattr(self.game.dealer, "pot_commits", None)
        if commits is not None and len(commits) == len(b["stacks"]):
            self.check(list(commits) == self.game.contrib,
                       "{}: chips put in {} instead of {}", offer, commits,
                       self.game.contrib)


def betting(rng, index, ctx):
    game = drive.Game(ctx, rng, gen.any_config(rng), [Betting()])
    for _ in range(2):
        style = rng.choice(["fuzz", "fuzz", "mixed", "minraise", "aggressive", None])
        game.session(rng.randint(1, 4), players=gen.Players(rng, game.cfg.n, style))
    ctx.evaluated()
    ctx.sample({"config": game.config, "hand": game.trace["hands"][-1]})


# --------------------------------------------------------------------- C09
class TurnOrder(Monitor):
    def on_reset(self, obs):
        m = self.game.model
        self.acted = set()
        self.turn(obs, m.turn, "first to act")
        self.check(obs["active"] == [s > 0 for s in self.game.start],
                   "players in the hand {}, stacks {}", obs["active"], self.game.start)

    def on_step(self, step):
        m, g = self.game.model, self.game
        if step.ended:
            self.check(step.after["action"] == -1, "seat {} to act after the hand",
                       step.after["action"])
            return
        if m is None or m.over:
            return
        if step.outcome is not None and m.street != self.street:
            self.ctx.count("street_openers")
        self.turn(step.after, m.turn, f"after seat {step.seat}, button {g.button}")

    def turn(self, obs, seat, when):
        m = self.game.model
        self.street = m.street if m is not None else 0
        self.ctx.count("turns")
        got = obs["action"]
        self.check(0 <= got < len(obs["active"]) and obs["active"][got],
                   "{}: seat {} to act is not in the hand {}", when, got, obs["active"])
        self.ctx.nontrivial(obs["active"], got, self.game.button, obs["stacks"])
        self.check(got == seat, "{}: seat {} to act instead of {} (in the hand: {})", when,
                   got, seat, obs["active"])


def turn_order(rng, index, ctx):
    game = drive.Game(ctx, rng, gen.any_config(rng), [TurnOrder()])
    game.session(rng.randint(3, 7))
    ctx.evaluated()
    ctx.sample({"config": game.config, "hand": game.trace["hands"][-1]})


# --------------------------------------------------------------------- C10
class Streets(Monitor):
    def on_reset(self, obs):
        self.board = obs["community_cards"]
        self.street = 0
        self.check(len(self.board) == self.game.cfg.board[0],
                   "{} board cards before the first betting round", len(self.board))

    def on_step(self, step):
        m, g = self.game.model, self.game
        board = step.after["community_cards"]
        self.check(board[: len(self.board)] == self.board,
                   "board {} became {}", names(self.board), names(board))
        self.board = board
        if m is None:
            return
        self.ctx.count("street_decisions")
        table = (f"after seat {step.seat} bets {step.bet}: commitments "
                 f"{step.before['street_commits']}, stacks {step.before['stacks']}, in the "
                 f"hand {step.before['active']}")
        self.check(m.over == step.ended, "{}: the hand is {}", table,
                   "over too early" if step.ended else "not over")
        if m.over:
            if m.showdown:
                self.ctx.count("showdowns")
                self.check(len(board) == sum(g.cfg.board),
                           "{}: board has {} of {} cards at showdown", table, len(board),
                           sum(g.cfg.board))
                if m.street - self.street > 1:
                    self.ctx.count("boards_run_out")
            return
        self.check(len(board) == m.board_count, "{}: {} board cards instead of {}", table,
                   len(board), m.board_count)
        self.check(step.after["street_commits"] == m.level,
                   "{}: commitments {} instead of {}", table, step.after["street_commits"],
                   m.level)
        if m.street != self.street:
            self.ctx.count("streets_opened")
            self.ctx.nontrivial(m.street, m.board_count, step.before["street_commits"],
                                step.after["stacks"])
        self.street = m.street

    def on_end(self, step):
        self.ctx.nontrivial("end", self.game.contrib, step.after["active"])


def streets(rng, index, ctx):
    game = drive.Game(ctx, rng, gen.any_config(rng), [Streets()])
    players = stay_in(rng, game.cfg.n) if rng.random() < 0.6 else None
    game.session(rng.randint(3, 6), players=players)
    ctx.evaluated()
    ctx.sample({"config": game.config, "hand": game.trace["hands"][-1]})


# --------------------------------------------------------------------- C11
class Ending(Monitor):
    def on_reset(self, obs):
        self.quiet = 0

    def on_step(self, step):
        g, n = self.game, self.game.cfg.n
        self.check(len(step.done) == n, "{} done flags for {} players", len(step.done), n)
        raised = not step.folds and step.paid > step.before["call"]
        self.quiet = 0 if raised or step.folds else self.quiet + 1
        self.ctx.most("steps_without_raise_or_fold", self.quiet)
        self.check(self.quiet <= n * g.cfg.streets or step.ended,
                   "{} checks and calls in a row did not end the hand", self.quiet)
        self.ctx.count("done_vectors")
        if step.ended:
            self.check(step.after["action"] == -1 and step.after["pot"] == 0,
                       "hand over, but seat {} to act and pot {}", step.after["action"],
                       step.after["pot"])
            return
        self.check(0 <= step.after["action"] < n, "the hand goes on but seat {} is to act",
                   step.after["action"])
        want = [not l or s == 0 for l, s in zip(step.after["active"], step.after["stacks"])]
        self.check(step.done == want, "done flags {} for stacks {}, in the hand {}",
                   step.done, step.after["stacks"], step.after["active"])

    def on_end(self, step):
        g = self.game
        self.ctx.count("hands_ended")
        self.ctx.most("steps_in_a_hand", g.steps)
        self.ctx.nontrivial(g.contrib, g.steps, g.live)
        board, stacks = g.board(), list(g.dealer.stacks)
        for _ in range(g.rng.randint(1, 3)):
            bet = g.rng.choice([0, -1, 1, 7, 10 ** 9, step.bet])
            obs, payouts, done = g.dealer.step(bet)
            self.ctx.count("steps_after_the_end")
            again = drive.freeze(obs)
            for key in again:
                if key != "hole_cards":
                    self.check(again[key] == step.after[key],
                               "step({}) after the end changed {} from {} to {}", bet, key,
                               step.after[key], again[key])
            self.check(list(payouts) == step.payouts and list(done) == step.done,
                       "step({}) after the end reports payouts {} done {} instead of {} {}",
                       bet, payouts, done, step.payouts, step.done)
            self.check(g.board() == board and list(g.dealer.stacks) == stacks,
                       "step({}) after the end changed the table", bet)


def ending(rng, index, ctx):
    config = gen.any_config(rng)
    if index % 50 == 0:
        # raises of one chip at a time: the longest hands there are
        config.update(raise_sizes=1, num_raises="inf", blinds=0, start_stack=60)
    game = drive.Game(ctx, rng, config, [Ending()])
    game.session(rng.randint(2, 6))
    ctx.evaluated()
    ctx.sample({"config": game.config, "hand": game.trace["hands"][-1]})


# --------------------------------------------------------------------- C12
class ForcedBets(Monitor):
    def on_reset(self, obs):
        g, n = self.game, self.game.cfg.n
        first = g.button
        if n > 2:
            for i in range(1, n + 1):
                if g.start[(g.button + i) % n] > 0:
                    first = (g.button + i) % n
                    break
        ante, blind = [0] * n, [0] * n
        for i in range(n):
            seat = (first + i) % n
            ante[seat] = min(g.cfg.antes[i], g.start[seat])
            blind[seat] = min(g.cfg.blinds[i], g.start[seat] - ante[seat])
            if blind[seat] < g.cfg.blinds[i] and g.start[seat] > 0:
                self.ctx.count("short_stacks_posting")
        left = [s - a - b for s, a, b in zip(g.start, ante, blind)]
        table = (f"button {g.button}, stacks {g.start}, antes {g.cfg.antes}, blinds "
                 f"{g.cfg.blinds}")
        self.ctx.count("deals")
        if any(ante) or any(blind):
            self.ctx.nontrivial(g.button, ante, blind, g.start)
            self.ctx.count("forced_bets", sum(x > 0 for x in ante + blind))
        if 0 in g.start:
            self.ctx.count("deals_with_busted_seats")
        self.check(obs["stacks"] == left, "{}: stacks after posting {} instead of {}", table,
                   obs["stacks"], left)
        self.check(obs["street_commits"] == blind, "{}: commitments {} instead of {}", table,
                   obs["street_commits"], blind)
        self.check(obs["pot"] == sum(ante) + sum(blind), "{}: pot {} instead of {}", table,
                   obs["pot"], sum(ante) + sum(blind))


def forced_bets(rng, index, ctx):
    config = gen.any_config(rng)
    n, unit = config["num_players"], rng.choice([1, 2, 5, 10])
    if rng.random() < 0.5:
        config["antes"] = gen.antes(rng, n, unit)
        config["blinds"] = gen.blinds(rng, n, unit)
    game = drive.Game(ctx, rng, config, [ForcedBets()])
    for _ in range(rng.randint(6, 16)):
        if rng.random() < 0.6:
            game.set_stacks(gen.stacks(rng, n, rng.choice([unit, 3 * unit, 100]), unit))
        kwargs = {}
        if sum(s > 0 for s in game.dealer.stacks) < 2 or rng.random() < 0.15:
            kwargs["reset_stacks"] = True
        if rng.random() < 0.15:
            kwargs["reset_button"] = True
        game.play(gen.Players(rng, n, rng.choice(["passive", "shover", None])), **kwargs)
    ctx.evaluated()
    ctx.sample({"config": game.config, "hand": game.trace["hands"][-1]})


# --------------------------------------------------------------------- C13
class Dealing(Monitor):
    def on_reset(self, obs):
        g = self.game
        full = {(r, s) for r in hands.deck_ranks(g.cfg.ranks) for s in range(g.cfg.suits)}
        self.full = full
        self.dealt = g.holes()
        self.board = []
        self.look("after dealing", g.cfg.board[0])
        self.check(obs["hole_cards"] == self.dealt[obs["action"]],
                   "seat {} is shown {} but holds {}", obs["action"],
                   names(obs["hole_cards"]), names(self.dealt[obs["action"]]))
        if g.expected is not None:
            self.order(0)

    def look(self, when, board_size=None):
        g = self.game
        holes, board = g.holes(), g.board()
        deck = [hands.parse(c) for c in g.dealer.deck.cards]
        self.ctx.count("tables_inspected")
        self.check(holes == self.dealt, "{}: hole cards changed from {} to {}", when,
                   [names(h) for h in self.dealt], [names(h) for h in holes])
        self.check(all(len(h) == g.cfg.hole for h in holes) and len(holes) == g.cfg.n,
                   "{}: hole cards {}", when, [names(h) for h in holes])
        self.check(board[: len(self.board)] == self.board, "{}: board {} became {}", when,
                   names(self.board), names(board))
        self.board = board
        everything = [c for h in holes for c in h] + board + deck
        self.check(len(everything) == len(set(everything)),
                   "{}: a card is in two places: hands {}, board {}, deck {}", when,
                   [names(h) for h in holes], names(board), names(deck))
        self.check(set(everything) == self.full,
                   "{}: cards missing or foreign: {}", when,
                   names(self.full.symmetric_difference(everything)))

    def order(self, drawn):
        """Cards leave the prepared deck in the order they are dealt."""
        g, pos = self.game, 0
        want = g.expected
        parts = [self.board[: g.cfg.board[0]]] + g.holes() + [self.board[g.cfg.board[0]:]]
        dealt = [c for part in parts for c in part]
        self.ctx.count("prepared_deals")
        self.check(dealt == want[: len(dealt)], "deck prepared as {} was dealt as {}",
                   names(want[: len(dealt)]), names(dealt))

    def on_step(self, step):
        self.look(f"after seat {step.seat} bets {step.bet}")
        if not step.ended:
            seat = step.after["action"]
            self.check(step.after["hole_cards"] == self.dealt[seat],
                       "seat {} is shown {} but holds {}", seat,
                       names(step.after["hole_cards"]), names(self.dealt[seat]))
        self.check(step.after["community_cards"] == self.board, "board {} reported as {}",
                   names(self.board), names(step.after["community_cards"]))
        if self.game.expected is not None:
            self.order(0)

    def on_end(self, step):
        self.ctx.count("hands_dealt")
        self.ctx.nontrivial(self.dealt, self.board)


def dealing(rng, index, ctx):
    game = drive.Game(ctx, rng, gen.any_config(rng), [Dealing()])
    game.expected = None
    game.session(rng.randint(2, 5))
    # a prepared deck: order of the deal is known
    cfg = game.cfg
    total = cfg.n * cfg.hole + sum(cfg.board)
    for _ in range(2):
        full = [(r, s) for r in hands.deck_ranks(cfg.ranks) for s in range(cfg.suits)]
        rng.shuffle(full)
        game.expected = full[: rng.randint(1, len(full))]
        game.dealer.deck.trick([clubs.Card(hands.name(c)) for c in game.expected])
        game.expected = game.expected if len(game.expected) >= total else game.expected
        hand = PreparedDeal(game.expected)
        game.expected = hand
        for _ in range(2):
            game.play(stay_in(rng, cfg.n), reset_stacks=True)
        game.dealer.deck.untrick()
        game.expected = None
        game.play(stay_in(rng, cfg.n), reset_stacks=True)
    ctx.evaluated()
    ctx.sample({"config": game.config, "hand": game.trace["hands"][-1]})


class PreparedDeal:
    """Known top of the deck; cards below it are unknown and equal anything."""

    def __init__(self, top):
        self.top = top

    def __getitem__(self, part):
        return Prefix(self.top, part.stop)


class Prefix(list):
    def __init__(self, top, size):
        super().__init__(top[:size])

    def __eq__(self, other):
        return list(other)[: len(self)] == list(self)

    __hash__ = None


# --------------------------------------------------------------------- C21
KEYS = {"action", "active", "button", "call", "community_cards", "hole_cards",
        "max_raise", "min_raise", "pot", "stacks", "street_commits"}


class Fidelity(Monitor):
    """Observations tell the actor the public table and nothing but own cards."""

    def on_reset(self, obs):
        self.kept = []
        self.commits = list(obs["street_commits"])
        self.look(obs, self.game.raw, None)

    def on_step(self, step):
        self.look(step.after, self.game.raw, step)

    def look(self, obs, raw, step):
        g, d = self.game, self.game.dealer
        self.ctx.count("observations")
        self.check(set(obs) == KEYS, "observation has entries {}", sorted(obs))
        self.check(obs["stacks"] == list(d.stacks), "stacks {} reported as {}", d.stacks,
                   obs["stacks"])
        self.check(obs["active"] == [bool(a) for a in d.active], "players {} reported as {}",
                   d.active, obs["active"])
        self.check(obs["community_cards"] == g.board(), "board {} reported as {}",
                   names(g.board()), names(obs["community_cards"]))
        self.check(obs["button"] == d.button, "button {} reported as {}", d.button,
                   obs["button"])
        self.check(obs["pot"] == d.pot, "pot {} reported as {}", d.pot, obs["pot"])
        ended = step is not None and step.ended
        if not ended:
            seat = obs["action"]
            put = sum(g.start) - sum(obs["stacks"])
            self.check(obs["pot"] == put, "pot {} reported, {} put in", obs["pot"], put)
            holes = g.holes()
            self.check(obs["hole_cards"] == holes[seat],
                       "seat {} to act holds {} and is shown {}", seat, names(holes[seat]),
                       names(obs["hole_cards"]))
            others = {c for i, h in enumerate(holes) if i != seat for c in h}
            shown = set(obs["hole_cards"]) | set(obs["community_cards"])
            self.check(not shown & others, "seat {} sees cards of others: {}", seat,
                       names(shown & others))
            if step is not None:
                same = obs["street_commits"][step.seat] == (
                    step.before["street_commits"][step.seat] + step.paid)
                fresh = not any(obs["street_commits"])
                self.check(same or fresh, "commitments {} after seat {} paid {}",
                           obs["street_commits"], step.seat, step.paid)
            self.ctx.nontrivial(obs["stacks"], obs["pot"], obs["hole_cards"], seat)
        # earlier observations are snapshots
        for old, frozen in self.kept[-6:]:
            self.check(drive.freeze(old) == frozen,
                       "an earlier observation changed from {} to {}", frozen,
                       drive.freeze(old))
            self.ctx.count("snapshots_rechecked")
        self.kept.append((raw, drive.freeze(raw)))

    def on_end(self, step):
        self.ctx.count("hands_observed")
        self.ctx.count("decisions", self.game.steps)


class Scribble(Monitor):
    """Overwrites every returned object after looking at it: must not matter."""

    def scribble(self, raw, extra=()):
        for value in list(raw.values()) + list(extra):
            if isinstance(value, list):
                self.ctx.count("objects_overwritten")
                value.reverse()
                value.clear()
                value.append("scribble")
        raw.clear()


def fidelity(rng, index, ctx):
    config = gen.any_config(rng)
    game = drive.Game(ctx, rng, config, [Fidelity()])
    game.session(rng.randint(2, 4))
    twin(rng, index, ctx)
    ctx.evaluated()
    ctx.sample({"config": game.config, "hand": game.trace["hands"][-1]})


def twin(rng, index, ctx):
    """The same hand twice; in one run all results are overwritten at once."""
    import random

    config = gen.any_config(rng)
    seed = rng.random()
    ctx.trace = {"twin": config, "seed": seed}
    logs = []
    scribbler = Scribble()
    scribbler.ctx = ctx
    bets = None
    for spoil in (False, True):
        random.seed(seed)
        chooser = gen.Players(__import__("random").Random(seed), config["num_players"])
        dealer = clubs.Dealer(**{k: (list(v) if isinstance(v, list) else v)
                                 for k, v in config.items()})
        log = []
        for _ in range(2):
            raw = dealer.reset(reset_stacks=True)
            log.append(drive.freeze(raw))
            current = log[-1]
            if spoil:
                scribbler.scribble(raw)
            for _ in range(120):
                bet = chooser.bet(current)
                raw, payouts, done = dealer.step(bet)
                current = drive.freeze(raw)
                log.append((current, list(payouts), list(done)))
                over = all(done)
                if spoil:
                    scribbler.scribble(raw, (payouts, done))
                if over:
                    break
                if not chooser.rng.randrange(4):
                    log.append(str(dealer))
            # an ended hand is looked at and reported again
            for bet in (0, 1):
                log.append(str(dealer))
                if not over:
                    break
                raw, payouts, done = dealer.step(bet)
                log.append((drive.freeze(raw), list(payouts), list(done)))
                if spoil:
                    scribbler.scribble(raw, (payouts, done))
                ctx.count("ends_reported_again")
        logs.append(log)
    ctx.count("twin_hands")
    for number, (a, b) in enumerate(zip(*logs)):
        ctx.check(a == b, "overwriting what the dealer returned changed the game at call {}: "
                  "{} instead of {}", number, b, a)
    ctx.check(len(logs[0]) == len(logs[1]), "overwriting results changed the hand's length")


# --------------------------------------------------------------------- C30
class Sessions(Monitor):
    """Button and stacks from one hand to the next."""

    def attach(self, game):
        super().attach(game)
        self.last_button = game.dealer.button
        self.last_stacks = None

    def on_reset(self, obs):
        g, n = self.game, self.game.cfg.n
        kwargs = g.trace["hands"][-1]["reset"]
        want = 0 if kwargs.get("reset_button") else (self.last_button + 1) % n
        self.check(obs["button"] == want, "button on seat {} instead of {} ({} before)",
                   obs["button"], want, self.last_button)
        self.last_button = obs["button"]
        if kwargs.get("reset_stacks"):
            g.start = [g.cfg.start] * n
        elif self.last_stacks is not None:
            self.check(g.start == self.last_stacks, "stacks {} between hands became {}",
                       self.last_stacks, g.start)
        self.check(obs["active"] == [s > 0 for s in g.start],
                   "stacks {}: players dealt in {}", g.start, obs["active"])
        self.check(sum(obs["stacks"]) + obs["pot"] == sum(g.start),
                   "stacks {} and pot {} at the start of a hand with {}", obs["stacks"],
                   obs["pot"], g.start)
        self.check(all(a <= b for a, b in zip(obs["stacks"], g.start)),
                   "stacks {} at the start of a hand with {}", obs["stacks"], g.start)
        self.check(len(obs["community_cards"]) == g.cfg.board[0], "board {} left over",
                   names(obs["community_cards"]))
        self.ctx.count("deals")
        self.ctx.nontrivial(want, g.start)

    def on_end(self, step):
        self.last_stacks = list(step.after["stacks"])
        busted = sum(s == 0 for s in self.last_stacks)
        self.ctx.count("hands_with_busted_seats", busted > 0)


def size_of(dealer):
    """Bytes a table needs apart from its evaluator and viewers, None if it cannot tell."""
    try:
        return len(pickle.dumps({
            key: value for key, value in vars(dealer).items()
            if not isinstance(value, (clubs.Evaluator, clubs.render.PokerViewer))}))
    except Exception:
        return None


def sessions(rng, index, ctx):
    config = gen.any_config(rng)
    config["start_stack"] = min(config["start_stack"], rng.choice([5, 20, 100]))
    monitor = Sessions()
    game = drive.Game(ctx, rng, config, [monitor])
    crowd = gen.Players(rng, game.cfg.n, rng.choice(["shover", "maniac", None]))
    sizes = []
    # some tables run long
    for number in range(rng.randint(4, 25) if index % 60 else rng.choice([70, 140, 280])):
        kwargs = {}
        if rng.random() < 0.12:
            kwargs["reset_button"] = True
        if rng.random() < 0.08:
            kwargs["reset_stacks"] = True
        if rng.random() < 0.1:
            game.set_stacks(gen.stacks(rng, game.cfg.n, game.cfg.start, 2))
            monitor.last_stacks = list(game.dealer.stacks)
        chips = sum(s > 0 for s in game.dealer.stacks)
        if chips < 2 and not kwargs.get("reset_stacks"):
            ctx.count("tables_with_one_player_left")
            before = (list(game.dealer.stacks), game.dealer.button)
            try:
                game.dealer.reset(**kwargs)
            except drive.error.TooFewActivePlayersError:
                pass
            else:
                ctx.fail(f"a hand is dealt with stacks {before[0]}")
            ctx.check((list(game.dealer.stacks), game.dealer.button) == before,
                      "refusing to deal changed stacks and button from {} to {}", before,
                      (game.dealer.stacks, game.dealer.button))
            kwargs["reset_stacks"] = True
        if rng.random() < 0.06 and monitor.last_stacks is not None:
            # a hand given up half way: the next one starts from full stacks
            game.reset(reset_stacks=True, reset_button=rng.random() < 0.2)
            for _ in range(rng.randint(0, 4)):
                if not game.over:
                    game.step(crowd.bet(game.obs))
            ctx.count("hands_given_up")
            monitor.last_stacks = None
            kwargs["reset_stacks"] = True
        game.play(crowd, **kwargs)
        if index % 60 == 0:
            sizes.append(size_of(game.dealer))
    if None not in sizes and len(sizes) > 50:
        early, late = max(sizes[:len(sizes) // 2]), min(sizes[len(sizes) * 3 // 4:])
        ctx.check(late <= early + 2000, "the table grew: at most {} bytes in the first {} "
                  "hands, at least {} in the last {}", early, len(sizes) // 2, late,
                  len(sizes) // 4)
        ctx.count("tables_weighed")
    ctx.evaluated()
    ctx.sample({"config": game.config, "hand": game.trace["hands"][-1]})


__all__ = ["Violation"]
