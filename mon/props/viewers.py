"""Monitors of the interface between tables and viewers."""
import contextlib
import io
import time

import clubs

from mon import drive, gen, hands
from mon.props import ascii as text
from mon.props import web

KEYS = {"action", "active", "all_in", "community_cards", "button", "done", "hole_cards",
        "pot", "payouts", "prev_action", "street_commits", "stacks"}


def copied(config):
    """The description as it is now (cards are never changed)."""
    return {key: [list(v) if isinstance(v, list) else v for v in value]
            if isinstance(value, list) else value for key, value in config.items()}


def scribble(config):
    """What a careless viewer may do to a description."""
    for value in list(config.values()):
        if isinstance(value, list):
            for part in value:
                if isinstance(part, list):
                    part.reverse()
                    part.clear()
            value.reverse()
            value.append(77)
            value[0] = 12345
    config.clear()


def of_base(number, hole, board):
    class Recording(clubs.render.PokerViewer):
        """A viewer as a user would write it."""

        seen = ()
        writes = False

        def render(self, config, sleep=0):
            self.seen += ((copied(config), sleep),)
            self.kept = config
            if self.writes:
                scribble(config)

    return Recording(number, hole, board)


class Plugged(drive.Monitor):
    """Reads what a viewer of one's own is told at every rendering."""

    def attach(self, game):
        super().attach(game)
        cfg = game.cfg
        self.viewer = of_base(cfg.n, cfg.hole, sum(cfg.board))
        self.check((self.viewer.num_players, self.viewer.num_hole_cards,
                    self.viewer.num_community_cards) == (cfg.n, cfg.hole, sum(cfg.board)),
                   "a viewer of {} knows {}", (cfg.n, cfg.hole, sum(cfg.board)),
                   vars(self.viewer))
        game.dealer.viewer = self.viewer
        self.viewer.writes = game.rng.random() < 0.4
        self.kept = []

    def on_reset(self, obs):
        self.show(obs, None)

    def on_step(self, step):
        self.show(step.after, step)

    def table(self):
        dealer = self.game.dealer
        return (str(dealer), list(dealer.stacks), list(dealer.active),
                list(dealer.street_commits), self.game.holes(), self.game.board())

    def show(self, obs, step):
        g, rng = self.game, self.game.rng
        mode, sleep = rng.choice(["ascii", "human"]), rng.choice([0, 0, 0.25, 3])
        self.viewer.seen = ()
        table = self.table()
        if sleep:
            g.dealer.render(mode, sleep=sleep)
        else:
            g.dealer.render(mode)
        self.check(g.dealer.viewer is self.viewer, "render({!r}) replaced the viewer by {!r}",
                   mode, g.dealer.viewer)
        self.check(len(self.viewer.seen) == 1, "render() drew {} times", len(self.viewer.seen))
        config, pause = self.viewer.seen[0]
        self.check(self.table() == table, "the table went from\n{}\nto\n{}\nwhile it was drawn",
                   table, self.table())
        if self.viewer.writes:
            self.ctx.count("careless_viewers")
        else:
            # descriptions of earlier moments stay as they were
            for then, kept in self.kept[-6:]:
                self.check(copied(kept) == then, "an earlier description went from {} to {}",
                           then, kept)
                self.ctx.count("descriptions_kept")
            self.kept.append((config, self.viewer.kept))
            if rng.random() < 0.02:
                self.kept.clear()
        self.check(pause == sleep, "a pause of {} became {}", sleep, pause)
        self.check(set(config) == KEYS, "fields {} missing, {} too many", KEYS - set(config),
                   set(config) - KEYS)
        done = step is not None and step.ended
        self.check(config["done"] is done, "the hand is told to be {} at {}", config["done"],
                   obs)
        want = {
            "active": obs["active"], "button": obs["button"], "stacks": obs["stacks"],
            "hole_cards": g.holes(), "community_cards": g.board(),
            "street_commits": obs["street_commits"],
            "prev_action": (step.seat, step.paid, step.folds) if step else None,
        }
        if done:
            self.ctx.count("ended_hands_told")
            want["payouts"] = step.payouts
        else:
            self.ctx.count("turns_told")
            want.update(action=obs["action"], pot=obs["pot"])
            want["all_in"] = [live and stack == 0
                              for live, stack in zip(obs["active"], obs["stacks"])]
            want["payouts"] = step.payouts if step else None
        for key, value in want.items():
            got = config[key]
            if key == "hole_cards":
                got = [[hands.parse(c) for c in hand] for hand in got]
            elif key == "community_cards":
                got = [hands.parse(c) for c in got]
            elif key == "prev_action":
                got = got and (got[0], got[1], bool(got[2]))
            elif value is None:
                continue
            elif isinstance(value, list):
                got = list(got)
            self.check(got == value, "{} told as {} instead of {}", key, got, value)
        self.ctx.nontrivial(obs["stacks"], obs["pot"], obs["action"], want["prev_action"],
                            [hands.name(c) for c in g.board()])


def told(rng, index, ctx):
    if index % 1500 == 7:
        return paused_web_table(rng, ctx)
    if index % 3 == 0:
        return drawn_directly(rng, ctx)
    game = drive.Game(ctx, rng, gen.any_config(rng), [Plugged()])
    game.session(rng.randint(1, 4), uneven=True)
    ctx.evaluated()
    ctx.sample({"config": game.config, "hand": game.trace["hands"][-1]})


def description(rng, n, hole, places):
    """A table as it might be, and its description for a viewer."""
    deck = [(r, s) for r in range(13) for s in range(4)]
    rng.shuffle(deck)
    top = rng.choice([1, 30, 2000, 10 ** 6, 10 ** 12])

    def chips():
        return rng.choice([0, rng.randint(0, top)])

    done = rng.random() < 0.3
    holes = [[deck.pop() for _ in range(hole)] for _ in range(n)]
    board = [deck.pop() for _ in range(rng.choice([places, rng.randint(0, places)]))]
    active = [rng.random() < 0.7 for _ in range(n)]
    action = rng.randrange(n)
    active[action] = True
    stacks = [chips() for _ in range(n)]
    stacks[action] = rng.choice([stacks[action], chips() + 1])
    state = {
        "done": done, "action": -1 if done else action, "active": active,
        "all_in": [live and stack == 0 for live, stack in zip(active, stacks)],
        "button": rng.randrange(n), "pot": 0 if done else chips(),
        "payouts": [rng.choice([-1, 0, 1]) * chips() for _ in range(n)] if done else [0] * n,
        "prev_action": rng.choice([None, (rng.randrange(n), chips(), False),
                                   (rng.randrange(n), 0, True)]),
        "street_commits": [chips() for _ in range(n)], "stacks": stacks,
    }

    def spell(card):
        return clubs.Card(hands.RANKS[card[0]] + hands.SUITS[card[1]])

    config = dict(state)
    config["hole_cards"] = [[spell(c) for c in hand] for hand in holes]
    config["community_cards"] = [spell(c) for c in board]
    state.update(hole=hole, places=places, board=[text.show(c) for c in board],
                 holes=[[text.show(c) for c in hand] for hand in holes],
                 last=state["prev_action"])
    return state, config


class Watch:
    """Stands in for time.sleep and records how long was asked for."""

    def __init__(self):
        self.pauses = []

    def __enter__(self):
        self.sleep = time.sleep
        time.sleep = self.pauses.append
        return self

    def __exit__(self, *_):
        time.sleep = self.sleep


def drawn_directly(rng, ctx):
    """The text viewer, given descriptions which are not of any running game."""
    n, hole = rng.randint(2, 10), rng.randint(1, 4)
    places = rng.choice([0, 1, 3, 5, 5, rng.randint(0, 52 - n * hole)])
    places = min(places, 12, 52 - n * hole)
    viewer = clubs.render.ASCIIViewer(n, hole, places)
    for _ in range(20):
        state, config = description(rng, n, hole, places)
        ctx.trace = state
        before = repr(config)
        with contextlib.redirect_stdout(io.StringIO()) as out, Watch() as watch:
            viewer.render(config)
        ctx.check(not any(watch.pauses), "drawing waited for {} s unasked", watch.pauses)
        ctx.check(repr(config) == before, "drawing changed {} to {}", before, config)
        drawn = out.getvalue()
        text.compare(ctx, ctx.fail, drawn[:-1], state)
        ctx.count("drawn_directly")
        ctx.nontrivial(drawn)
    # pauses last as long as asked for, after drawing
    pause = rng.choice([0.002, 0.01, 0.03])
    with contextlib.redirect_stdout(Stamped()) as out:
        start = time.perf_counter()
        viewer.render(config, pause) if rng.random() < 0.5 else viewer.render(config, sleep=pause)
        end = time.perf_counter()
    ctx.check(out.getvalue() == drawn, "with a pause\n{}\nwas drawn instead of\n{}",
              out.getvalue(), drawn)
    ctx.check(end - start >= pause * 0.99, "a pause of {} s took {} s", pause, end - start)
    ctx.check(end - out.last >= pause * 0.99, "a pause of {} s took {} s after drawing",
              pause, end - out.last)
    ctx.count("pauses_timed")
    # a kind of viewer which cannot draw says so
    bare = clubs.render.PokerViewer(n, hole, places)
    try:
        bare.render(config)
    except NotImplementedError:
        ctx.count("bare_viewers_refused")
    else:
        ctx.fail("a viewer without render() of its own draws nothing without saying so")
    ctx.evaluated()
    ctx.sample(drawn)


def paused_web_table(rng, ctx):
    n, hole, places = rng.randint(2, 10), rng.randint(1, 4), rng.randint(0, 5)
    viewer = web.start_viewer(ctx, n, hole, places)
    try:
        for _ in range(10):
            _, config = description(rng, n, hole, places)
            with Watch() as watch:
                viewer.render(config)
            ctx.check(not any(watch.pauses), "drawing waited for {} s unasked", watch.pauses)
            pause = rng.choice([0.002, 0.01, 0.03])
            start = time.perf_counter()
            viewer.render(config, sleep=pause)
            took = time.perf_counter() - start
            ctx.check(took >= pause * 0.99, "a pause of {} s took {} s", pause, took)
            ctx.count("web_pauses_timed")
    finally:
        web.stop_viewer(viewer)
    ctx.evaluated()


close = web.close


class Stamped(io.StringIO):
    """Output that knows when it was last written to."""

    last = 0.0

    def write(self, string):
        self.last = time.perf_counter()
        return super().write(string)
