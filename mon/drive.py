"""Drives the real dealer and feeds monitors with what crosses its API boundary.

A Game owns one clubs.Dealer.  Every reset and step is recorded as a frozen copy of
what the call returned, next to the prediction of the reference table
(mon.rules.Hand).  The reference is abandoned for the rest of the hand as soon as
any observable differs from it, after the monitors looked at that very step, so a
monitor reports the first wrong observable of its own scope and not the fallout of
somebody else's.
"""
import clubs
from clubs import error

from mon import gen, hands, rules

MAX_STEPS = 400


def card_name(card):
    return hands.name(hands.parse(card))


def freeze(obs):
    out = dict(obs)
    for key in ("active", "stacks", "street_commits"):
        out[key] = list(obs[key])
    out["community_cards"] = [hands.parse(c) for c in obs["community_cards"]]
    out["hole_cards"] = [hands.parse(c) for c in obs["hole_cards"]]
    return out


class Step:
    """One call of step(): the state before, the bet, and what came back."""

    def __init__(self, seat, bet, before, board, holes):
        self.seat, self.bet, self.before = seat, bet, before
        self.board_before, self.holes = board, holes
        self.after = self.payouts = self.done = None
        self.ended = False
        # resolution of the bet against the sizes offered beforehand
        self.paid, self.folds = rules.resolve(
            bet, before["stacks"][seat], before["call"], before["min_raise"],
            before["max_raise"],
        )


class Monitor:
    """Base class, every hook is optional."""

    def attach(self, game):
        self.game, self.ctx = game, game.ctx

    def on_reset(self, obs):
        pass

    def on_step(self, step):
        pass

    def on_end(self, step):
        pass

    def check(self, condition, what, *args):
        if not condition:
            self.game.fail(what.format(*args))


class Game:
    def __init__(self, ctx, rng, config, monitors=(), dealer=None):
        self.ctx, self.rng, self.config = ctx, rng, config
        self.cfg = rules.Cfg(config)
        self.trace = {"config": config, "hands": []}
        ctx.trace = self.trace
        self.dealer = dealer or clubs.Dealer(**config)
        self.ranking = None
        self.model = None
        self.monitors = list(monitors)
        self.obs = None
        self.raw = None
        self.button = 0
        self.over = True
        self.total = None
        for monitor in self.monitors:
            monitor.attach(self)

    # helpers -----------------------------------------------------------
    def fail(self, what):
        hand = len(self.trace["hands"]) - 1
        self.ctx.fail(f"hand {hand}: {what}")

    def rank(self):
        if self.ranking is None:
            c = self.cfg
            self.ranking = hands.Ranking(
                c.suits, c.ranks, c.hand, c.low, c.order,
                gen.freq(c.suits, c.ranks, c.hand, c.low))
        return self.ranking

    def holes(self):
        return [[hands.parse(c) for c in h] for h in self.dealer.hole_cards]

    def board(self):
        return [hands.parse(c) for c in self.dealer.community_cards]

    def set_stacks(self, stacks):
        self.dealer.stacks = list(stacks)

    # actions -----------------------------------------------------------
    def reset(self, **kwargs):
        n = self.cfg.n
        self.start = ([self.cfg.start] * n if kwargs.get("reset_stacks")
                      else list(self.dealer.stacks))
        self.trace["hands"].append({"start": list(self.start), "reset": kwargs,
                                    "actions": []})
        self.raw = self.dealer.reset(**kwargs)
        self.obs = freeze(self.raw)
        self.button = self.obs["button"]
        hand = self.trace["hands"][-1]
        hand["button"] = self.button
        hand["holes"] = [[hands.name(c) for c in h] for h in self.holes()]
        self.total = sum(self.start)
        self.over = False
        self.steps = 0
        self.contrib = [a - b for a, b in zip(self.start, self.obs["stacks"])]
        self.live = list(self.obs["active"])
        self.model = rules.Hand(self.cfg, self.start, self.button)
        for monitor in self.monitors:
            monitor.on_reset(self.obs)
        self.sync()
        return self.obs

    def sync(self):
        """Drops the reference table once the dealer left it."""
        m, o = self.model, self.obs
        if m is None:
            return
        if m.over != self.over:
            self.model = None
        elif not self.over:
            same = (
                m.turn == o["action"] and m.stacks == o["stacks"]
                and m.level == o["street_commits"] and m.live == o["active"]
                and m.pot == o["pot"] and m.board_count == len(o["community_cards"])
                and m.offers() == (o["call"], o["min_raise"], o["max_raise"])
            )
            if not same:
                self.model = None
        if self.model is None:
            self.ctx.count("reference_left")

    def step(self, bet):
        step = Step(self.obs["action"], bet, self.obs, self.board(), self.holes())
        step.raw_before = self.raw
        self.trace["hands"][-1]["actions"].append([step.seat, bet])
        step.model_before = self.model
        step.outcome = self.model.act(bet) if self.model else None
        raw, payouts, done = self.dealer.step(bet)
        self.raw = raw
        step.after = self.obs = freeze(raw)
        step.payouts, step.done = list(payouts), list(done)
        step.ended = all(done)
        self.over = step.ended
        self.steps += 1
        if step.ended:
            self.contrib[step.seat] += step.paid
            if step.folds:
                self.live[step.seat] = False
        else:
            self.contrib = [a - b for a, b in zip(self.start, self.obs["stacks"])]
            self.live = list(self.obs["active"])
        for monitor in self.monitors:
            monitor.on_step(step)
        if step.ended:
            self.trace["hands"][-1]["board"] = [hands.name(c) for c in self.board()]
            self.trace["hands"][-1]["payouts"] = step.payouts
            for monitor in self.monitors:
                monitor.on_end(step)
        self.sync()
        return step

    def play(self, players, **kwargs):
        """One hand to its end; returns its last step."""
        self.reset(**kwargs)
        while not self.over:
            if self.steps < MAX_STEPS:
                bet = players.bet(self.obs)
            else:
                bet = self.obs["call"]
            if self.steps > MAX_STEPS + 10 * self.cfg.n * self.cfg.streets:
                self.fail("the hand does not end although everybody checks or calls")
            step = self.step(bet)
        self.ctx.count("hands")
        self.ctx.count("steps", self.steps)
        return step

    def session(self, count, uneven=True, players=None):
        """Several hands of one table, with varied stacks between them."""
        unit = max([1] + self.cfg.blinds + self.cfg.antes)
        for index in range(count):
            crowd = players or gen.Players(self.rng, self.cfg.n)
            kwargs = {}
            if index == 0:
                kwargs = {"reset_stacks": True, "reset_button": self.rng.random() < 0.5}
                if uneven and self.rng.random() < 0.6:
                    # positions the button anywhere before stacks are uneven
                    kwargs = {}
                    self.set_stacks(gen.stacks(self.rng, self.cfg.n, self.cfg.start, unit))
                    self.dealer.button = self.rng.randrange(self.cfg.n)
            elif uneven and self.rng.random() < 0.4:
                self.set_stacks(gen.stacks(self.rng, self.cfg.n, self.cfg.start, unit))
            elif self.rng.random() < 0.1:
                kwargs = {"reset_stacks": True}
            if not kwargs.get("reset_stacks") and sum(s > 0 for s in self.dealer.stacks) < 2:
                kwargs["reset_stacks"] = True
            if uneven and self.rng.random() < 0.07:
                # a hand given up half way, nothing of it may show in the next one
                self.reset(**kwargs)
                for _ in range(self.rng.randint(0, 3 * self.cfg.n)):
                    if not self.over:
                        self.step(crowd.bet(self.obs))
                if not self.over:
                    self.ctx.count("hands_given_up")
                if self.rng.random() < 0.5:
                    kwargs = {"reset_stacks": True, "reset_button": self.rng.random() < 0.2}
                else:
                    kwargs = {}
                    self.set_stacks(gen.stacks(self.rng, self.cfg.n, self.cfg.start, unit))
            self.play(crowd, **kwargs)


__all__ = ["Game", "Monitor", "Step", "freeze", "card_name", "error", "clubs"]
