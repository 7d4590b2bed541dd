"""Monitors that compare whole games: probabilities, determinism, side effects."""
import contextlib
import copy
import io
import itertools
import os
import pickle
import random
import subprocess
import sys
import threading
from fractions import Fraction

import clubs
from clubs import error

from mon import drive, gen, hands, rules
from mon.props import cards as cardprops
from mon.props import table


def names(cards):
    return "".join(hands.name(c) for c in cards) or "-"


def fresh(config):
    return copy.deepcopy(config)


# --------------------------------------------------------------------- C20
class Probabilities(drive.Monitor):
    limit = 1200
    always = False
    remembered = False
    effort = 0

    def on_reset(self, obs):
        if self.ctx.prop == "C20":
            self.look("at the deal")

    def on_step(self, step):
        # late in the hand there are few boards left, so always look then
        self.look(f"after seat {step.seat} bets {step.bet}")

    def look(self, when):
        g = self.game
        board = g.board()
        missing = sum(g.cfg.board) - len(board)
        deck = [hands.parse(c) for c in g.dealer.deck.cards]
        boards = hands.comb(len(deck), missing)
        if boards * g.cfg.n > self.limit * (4 if g.rng.random() < 0.02 else 1):
            self.ctx.count("points_too_wide")
            return
        if not self.always and (g.rng.random() > 0.35 or self.effort > 500000):
            return
        self.effort += boards * g.cfg.n * ways(g.cfg)[1]
        got = g.dealer.win_probabilities()
        ranking, holes = g.rank(), g.holes()
        if self.remembered:
            ranking = Remembered(ranking)
        live = [bool(a) for a in g.dealer.active]
        wins = [0] * g.cfg.n
        for extra in itertools.combinations(deck, missing):
            full = board + list(extra)
            scores = [ranking.best(h, full, g.cfg.mandatory) if l else None
                      for h, l in zip(holes, live)]
            top = max(s for s in scores if s is not None)
            for seat, score in enumerate(scores):
                wins[seat] += score == top
        want = [Fraction(w, sum(wins)) for w in wins]
        scene = (f"{when}: hands {[names(h) for h in holes]}, in the hand {live}, board "
                 f"{names(board)}, {boards} boards")
        self.ctx.count("probabilities")
        self.ctx.count("boards_enumerated", boards)
        self.ctx.most("most_boards", boards)
        if boards > 4000:
            self.ctx.count("probabilities_over_thousands_of_boards")
        if missing:
            self.ctx.count("probabilities_before_the_last_card")
        if not all(live):
            self.ctx.count("probabilities_with_folded_seats")
        if any(0 < w < 1 for w in want):
            self.ctx.nontrivial(board, holes, live)
        self.check(len(got) == len(want) and
                   all(abs(Fraction(a) - b) < Fraction(1, 10 ** 9)
                       for a, b in zip(got, want)),
                   "{}: win probabilities {} instead of {}", scene, got,
                   [float(w) for w in want])


class Remembered:
    """A ranking which looks every hand up only once: for many boards, small hands."""

    def __init__(self, ranking):
        self.ranking, self.known = ranking, {}

    def best(self, hole, community, mandatory=0):
        known, best = self.known, None
        for hand in hands.legal_hands(hole, community, self.ranking.n, mandatory):
            label = tuple(hand)
            strength = known.get(label)
            if strength is None:
                strength = known[label] = self.ranking.strength(hand)
            if best is None or strength > best:
                best = strength
        return best


def ways(cfg):
    """(boards at the deal, legal hands out of hole cards and a full board)."""
    left = cfg.suits * cfg.ranks - cfg.n * cfg.hole
    total = sum(cfg.board)
    if cfg.mandatory:
        legal = (hands.comb(cfg.hole, cfg.mandatory) *
                 hands.comb(total, cfg.hand - cfg.mandatory))
    else:
        legal = hands.comb(cfg.hole + total, cfg.hand)
    return hands.comb(left, total), legal


def many_boards(rng, index, ctx):
    """Moments with thousands of boards to come, up to the deal of a whole board."""
    # now and then very many boards, of hands that are cheap to rank
    many = index % 96 == 7 or rng.random() < 0.1
    low, high = (150000, 1800000) if many else (2500, 120000)
    effort = 15000000 if many else 600000
    if ctx.tier == "thorough" and rng.random() < 0.1:
        low, high, effort = high, 1800000, 10 * effort
    while True:
        aim = low * (high / low) ** rng.random()
        config = gen.config(rng, players=rng.choice([2, 2, 2, 3, 4, 6]))
        if ctx.tier == "thorough" and index == 7:
            config = fresh(clubs.configs.NO_LIMIT_HOLDEM_TWO_PLAYER)
            cfg = rules.Cfg(config)
            break
        cfg = rules.Cfg(config)
        if many and cfg.hand > 2:
            continue
        boards, legal = ways(cfg)
        if aim / 2 <= boards <= aim * 2 and boards * (legal + 6) * cfg.n <= effort:
            break
    monitor = Probabilities()
    monitor.limit, monitor.always, monitor.remembered = 10 ** 8, True, cfg.hand <= 3
    game = drive.Game(ctx, rng, config, [monitor])
    game.reset(reset_stacks=True)
    ctx.evaluated()
    ctx.sample({"config": game.config, "hand": game.trace["hands"][-1]})


def probabilities(rng, index, ctx):
    if index % 12 == 7:
        many_boards(rng, index, ctx)
        return
    while True:
        config = gen.any_config(rng)
        board = config["num_community_cards"]
        if isinstance(board, int):
            board = [board] * config["num_streets"]
        if sum(board):
            break
    game = drive.Game(ctx, rng, config, [Probabilities()])
    game.session(rng.randint(2, 4), players=table.stay_in(rng, game.cfg.n))
    ctx.evaluated()
    ctx.sample({"config": game.config, "hand": game.trace["hands"][-1]})


# --------------------------------------------------------------------- whole runs
def run(config, seed, bets_seed, hand_count, between=None, dealer=None):
    """A session from fixed seeds, as a list of everything the API returned."""
    random.seed(seed)
    dealer = dealer or clubs.Dealer(**config)
    chooser_rng = random.Random(bets_seed)
    chooser = gen.Players(chooser_rng, config["num_players"])
    log = []
    for number in range(hand_count):
        kwargs = {"reset_stacks": number == 0 or
                  sum(s > 0 for s in dealer.stacks) < 2 or chooser_rng.random() < 0.2}
        obs = drive.freeze(dealer.reset(**kwargs))
        log.append((kwargs, obs, [[hands.parse(c) for c in h] for h in dealer.hole_cards]))
        if between:
            between(dealer, obs, False)
        for step in range(150):
            bet = chooser.bet(obs) if step < 100 else obs["call"]
            raw, payouts, done = dealer.step(bet)
            obs = drive.freeze(raw)
            log.append((bet, obs, list(payouts), list(done)))
            if between:
                between(dealer, obs, all(done))
            if all(done):
                break
    return log


def stepper(config, seed, top_cards, hand_count):
    """The same session one call at a time; the deck is fully prepared."""
    dealer = clubs.Dealer(**config)
    chooser_rng = random.Random(seed)
    chooser = gen.Players(chooser_rng, config["num_players"])
    for number in range(hand_count):
        dealer.deck.trick([cardprops.card(c) for c in top_cards[number]])
        obs = drive.freeze(dealer.reset(reset_stacks=True))
        yield obs, [[hands.parse(c) for c in h] for h in dealer.hole_cards]
        for step in range(150):
            bet = chooser.bet(obs) if step < 100 else obs["call"]
            raw, payouts, done = dealer.step(bet)
            obs = drive.freeze(raw)
            yield bet, obs, list(payouts), list(done)
            if all(done):
                break


class Schedule:
    """Runs generators in threads, one at a time, switching between lines of clubs."""

    def __init__(self, seed, density):
        self.rng, self.density = random.Random(seed), density
        self.home = os.path.dirname(os.path.abspath(clubs.__file__)) + os.sep
        self.switches, self.lines = 0, set()

    def run(self, tables):
        count = len(tables)
        self.turn = [threading.Semaphore(0) for _ in tables]
        self.left = set(range(count))
        logs, problems = [[] for _ in tables], []

        def play(which):
            def local(frame, event, arg):
                if event == "line" and self.rng.random() < self.density:
                    self.lines.add((frame.f_code.co_filename, frame.f_lineno))
                    self.give_way(which)
                return local

            def trace(frame, event, arg):
                return local if frame.f_code.co_filename.startswith(self.home) else None

            self.turn[which].acquire()
            sys.settrace(trace)
            try:
                for item in tables[which]:
                    logs[which].append(item)
            except BaseException as exc:  # handed to the case
                problems.append(exc)
            finally:
                sys.settrace(None)
                self.left.discard(which)
                if self.left:
                    self.turn[self.rng.choice(sorted(self.left))].release()
                else:
                    finished.release()

        finished = threading.Semaphore(0)
        threads = [threading.Thread(target=play, args=(i,), daemon=True)
                   for i in range(count)]
        for thread in threads:
            thread.start()
        self.turn[self.rng.randrange(count)].release()
        # a wait without a limit would keep the alarm of the worker from being seen
        while not finished.acquire(timeout=1):
            pass
        for thread in threads:
            thread.join()
        if problems:
            raise problems[0]
        return logs

    def give_way(self, which):
        other = self.rng.choice(sorted(self.left))
        if other != which:
            self.switches += 1
            self.turn[other].release()
            self.turn[which].acquire()


def same(ctx, a, b, what):
    for number, (x, y) in enumerate(zip(a, b)):
        ctx.check(x == y, "{}: call {} returned {} instead of {}", what, number, y, x)
    ctx.check(len(a) == len(b), "{}: {} calls instead of {}", what, len(b), len(a))


# --------------------------------------------------------------------- C22
PRISTINE = {name: copy.deepcopy(getattr(clubs.configs, name)) for name in gen.PRESETS
            if hasattr(clubs.configs, name)}


def isolation(rng, index, ctx):
    if index % 101 == 5:
        other_process(rng, ctx)
        return
    config = gen.any_config(rng)
    if rng.random() < 0.3:
        name = rng.choice(sorted(PRISTINE))
        config = getattr(clubs.configs, name)
    untouched = copy.deepcopy(config)
    seed, bets = rng.random(), rng.random()
    ctx.trace = {"config": config, "seed": seed, "bets": bets}
    hand_count = rng.randint(2, 4)
    first = run(config, seed, bets, hand_count)
    second = run(config, seed, bets, hand_count)
    same(ctx, first, second, "the same game with the same random seed")
    ctx.count("repeated_games")
    # a table that has been used before plays like a new one, button aside
    ctx.check(config == untouched, "playing changed the configuration from {} to {}",
              untouched, config)
    for name, value in PRISTINE.items():
        ctx.check(getattr(clubs.configs, name) == value, "playing changed preset {}", name)
    # the configuration is the caller's: what it becomes later is nothing to the table
    given = fresh(config)
    dealer, twin = clubs.Dealer(**given), clubs.Dealer(**fresh(config))
    for key, value in given.items():
        if isinstance(value, list):
            value.reverse()
            for i in range(len(value)):
                value[i] = rng.choice([0, 1, 3, value[i]])
            if rng.random() < 0.2:
                value.clear()
            ctx.count("lists_changed_afterwards")
    given.clear()
    same(ctx, run(config, seed, bets, hand_count, dealer=twin),
         run(config, seed, bets, hand_count, dealer=dealer),
         "a game whose configuration is put to other use")
    # several tables with prepared decks, alone and in turns
    plans = []
    for number in range(rng.randint(2, 4)):
        other = config if number == 0 or rng.random() < 0.4 else gen.any_config(rng)
        deck = cardprops.full_deck(other["num_suits"], other["num_ranks"])
        tops = []
        for _ in range(2):
            rng.shuffle(deck)
            tops.append(list(deck))
        plans.append((other, rng.random(), tops))
    alone = [list(stepper(c, s, tops, 2)) for c, s, tops in plans]
    running = [stepper(c, s, tops, 2) for c, s, tops in plans]
    mixed = [[] for _ in plans]
    open_tables = list(range(len(plans)))
    while open_tables:
        which = rng.choice(open_tables)
        try:
            mixed[which].append(next(running[which]))
            ctx.count("interleaved_calls")
        except StopIteration:
            open_tables.remove(which)
    for which in range(len(plans)):
        same(ctx, alone[which], mixed[which], f"table {which} of {len(plans)}, played in turns")
    ctx.count("tables_in_turns", len(plans))
    if index % 12 == 2:
        schedule = Schedule(rng.random(), rng.choice([0.1, 0.02, 0.004]))
        logs = schedule.run([stepper(c, s, tops, 2) for c, s, tops in plans])
        for which, (want, got) in enumerate(zip(alone, logs)):
            same(ctx, want, got, f"table {which} of {len(plans)}, played in threads")
        ctx.count("tables_in_threads", len(plans))
        ctx.count("thread_switches_inside_calls", schedule.switches)
        ctx.most("lines_switched_at", len(schedule.lines))
    side_by_side(rng, ctx)
    copies(rng, ctx)
    ctx.evaluated()
    ctx.nontrivial(first[-1], mixed[-1][-1])
    ctx.sample({"config": config, "calls": len(first)})


def story(config, seed, bets, top):
    """Everything a game shows from fixed seeds, as text."""
    dealer = clubs.Dealer(**fresh(config))
    random.seed(seed)
    deck = clubs.Deck(config["num_suits"], config["num_ranks"])
    deck.trick([cardprops.card(c) for c in top]).shuffle()
    dealer.deck.trick([cardprops.card(c) for c in top])
    drawn = []

    def between(table, obs, over):
        drawn.append(str(table))

    log = run(config, seed, bets, 2, between, dealer)
    return repr((text_of(deck.cards), log, drawn, str(dealer.deck), str(dealer.evaluator)))


def text_of(cards):
    return names([hands.parse(c) for c in cards])


def child():
    """The other process: stories of the games given on standard input."""
    games = pickle.loads(sys.stdin.buffer.read())
    sys.stdout.buffer.write(pickle.dumps([story(*game) for game in games]))
    sys.stdout.buffer.flush()
    os._exit(0)


def other_process(rng, ctx):
    """The same games once more in another process, with other hash seeds."""
    games = []
    for _ in range(12):
        config = gen.any_config(rng)
        full = cardprops.full_deck(config["num_suits"], config["num_ranks"])
        top = rng.sample(full, rng.choice([0, 0, 1, min(3, len(full)), len(full) // 2]))
        games.append((config, rng.random(), rng.random(), top))
    ctx.trace = {"games": games}
    here = [story(*game) for game in games]
    env = dict(os.environ, PYTHONHASHSEED=str(rng.randrange(1, 10 ** 6)))
    done = subprocess.run(
        [sys.executable, "-c", "from mon.props import whole; whole.child()"], env=env,
        input=pickle.dumps(games), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if done.returncode:
        ctx.fail("the games of this process fail in another one: "
                 + done.stderr.decode(errors="replace")[-400:])
    for number, (a, b) in enumerate(zip(here, pickle.loads(done.stdout))):
        at = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        ctx.check(a == b, "game {} is another one in another process: {} instead of {}",
                  number, b[max(0, at - 40):at + 80], a[max(0, at - 40):at + 80])
        ctx.count("games_in_another_process")
    ctx.evaluated()
    ctx.nontrivial(here[0])


def play_on(dealer, obs, seed, calls):
    """Some more calls from fixed seeds, into the next hand if this one ends."""
    random.seed(seed)
    chooser_rng = random.Random(seed)
    chooser = gen.Players(chooser_rng, dealer.num_players)
    log = []
    for _ in range(calls):
        if obs is None:
            stuck = sum(s > 0 for s in dealer.stacks) < 2
            obs = drive.freeze(dealer.reset(reset_stacks=stuck or chooser_rng.random() < 0.3))
            log.append((obs, [[hands.parse(c) for c in h] for h in dealer.hole_cards]))
            continue
        bet = chooser.bet(obs)
        raw, payouts, done = dealer.step(bet)
        obs = drive.freeze(raw)
        log.append((bet, obs, list(payouts), list(done)))
        if all(done):
            obs = None
    return log, obs


def copies(rng, ctx):
    """A copy of a table plays on like the original; neither notices the other."""
    config = gen.any_config(rng)
    start, here, there, calls = rng.random(), rng.random(), rng.random(), rng.randint(4, 30)
    ctx.trace["copied"] = {"config": config, "seeds": [start, here, there], "calls": calls}
    before = rng.randint(1, 12)
    pickled = rng.random() < 0.3

    def table():
        dealer = clubs.Dealer(**fresh(config))
        return (dealer,) + play_on(dealer, None, start, before)

    lone, _, obs = table()
    want, _ = play_on(lone, obs, here, calls)
    lone, _, obs = table()
    want_there, _ = play_on(lone, obs, there, calls)
    original, _, obs = table()
    if pickled:
        twin = pickle.loads(pickle.dumps(original))
    else:
        twin = copy.deepcopy(original)
    how = "pickled" if pickled else "copied"
    ctx.check(snapshot(twin) == snapshot(original), "a {} table is {} instead of {}", how,
              snapshot(twin), snapshot(original))
    first, second = (twin, original) if rng.random() < 0.5 else (original, twin)
    untouched = snapshot(second)[:-1]
    same(ctx, want_there, play_on(first, obs, there, calls)[0],
         "the copy" if first is twin else f"a table that was {how}")
    ctx.check(snapshot(second)[:-1] == untouched, "playing on one of a table and its copy "
              "changed the other from {} to {}", untouched, snapshot(second)[:-1])
    same(ctx, want, play_on(second, obs, here, calls)[0],
         "the copy, after the original played on" if second is twin else
         f"a table that was {how}, after the copy played on")
    ctx.count("copies_played")


def side_by_side(rng, ctx):
    """Evaluators that differ in little each rank hands of their own game."""
    def settled(kind):
        suits, ranks, n, mandatory, low, order = kind
        return suits * ranks >= n + 2 and n >= mandatory and (
            order is not None or gen.rarity_is_settled(suits, ranks, n, low))

    def shuffled_order():
        order = gen.CAT_NAMES[:]
        rng.shuffle(order)
        return order

    while True:
        base = [rng.randint(1, 4), rng.randint(4, 13), rng.randint(3, 5), rng.choice([0, 0, 1]),
                rng.random() < 0.5, shuffled_order() if rng.random() < 0.8 else None]
        if settled(base):
            break
    kinds = [base]
    while len(kinds) < 4:
        other = list(rng.choice(kinds))
        what = rng.choice([0, 1, 2, 3, 4, 4, 4, 5])
        other[what] = [rng.randint(1, 4), rng.randint(4, 13), rng.randint(3, 5),
                       rng.randint(0, 2), not other[4],
                       shuffled_order() if rng.random() < 0.8 else None][what]
        if settled(other) and other not in kinds:
            kinds.append(other)
    rng.shuffle(kinds)
    tables = []
    for kind in kinds:
        suits, ranks, n, mandatory, low, order = kind
        tables.append((kind, clubs.Evaluator(*kind), hands.Ranking(
            suits, ranks, n, low, order, gen.freq(suits, ranks, n, low)), []))
    ctx.trace["evaluators"] = kinds
    for _ in range(60):
        (suits, ranks, n, mandatory, low, order), evaluator, ranking, rows = rng.choice(tables)
        full = cardprops.full_deck(suits, ranks)
        extra = rng.choice([0, 0, 1, 2])
        known = hands.deck_ranks(ranks)
        if rng.random() < 0.5 and ranks >= n:
            # a run of ranks, the ace below or on top
            start = rng.choice([-1, -1, ranks - n, rng.randint(-1, ranks - n)])
            dealt = [(known[i], rng.randrange(suits) if rng.random() < 0.8 else 0)
                     for i in range(start, start + n)]
            dealt += rng.sample([c for c in full if c not in dealt], extra)
        else:
            dealt = rng.sample(full, n + extra)
        if len(set(dealt)) < len(dealt):
            continue
        rng.shuffle(dealt)
        cut = rng.randint(mandatory, min(len(dealt), mandatory + extra))
        hole, board = dealt[:cut], dealt[cut:]
        if mandatory and len(board) < n - mandatory:
            continue
        rank = evaluator.evaluate([cardprops.card(c) for c in hole],
                                  [cardprops.card(c) for c in board])
        strength = ranking.best(hole, board, mandatory)
        kind = (suits, ranks, n, mandatory, low, order)
        for other, value, cards in rows:
            ctx.check((other < rank, other == rank) == (value > strength, value == strength),
                      "next to other evaluators, {} ranks {} as {} and {} as {}", kind, cards,
                      other, names(dealt), rank)
        rows.append((rank, strength, names(dealt)))
        ctx.count("side_by_side_evaluations")


# --------------------------------------------------------------------- C24
def inert(rng, index, ctx):
    config = gen.any_config(rng)
    seed, bets = rng.random(), rng.random()
    ctx.trace = {"config": config, "seed": seed, "bets": bets}
    hand_count = rng.randint(2, 3)
    plain = run(fresh(config), seed, bets, hand_count)
    prying = random.Random(rng.random())
    silent = io.StringIO()

    def look(dealer, obs, over):
        state = snapshot(dealer)
        for _ in range(prying.randint(0, 3)):
            kind = prying.choice(["str", "repr", "render", "odds", "deck", "evaluator"])
            if kind == "str":
                str(dealer)
            elif kind == "repr":
                repr(dealer)
            elif kind == "render":
                with contextlib.redirect_stdout(silent):
                    dealer.render("ascii")
            elif kind == "odds":
                missing = sum(_board(config)) - len(dealer.community_cards)
                if hands.comb(len(dealer.deck), missing) * config["num_players"] > 1500:
                    continue
                dealer.win_probabilities()
            elif kind == "deck":
                str(dealer.deck), repr(dealer.deck), len(dealer.deck)
            else:
                str(dealer.evaluator), repr(dealer.evaluator)
                dealer.evaluator.get_rank_class(0)
            ctx.count("looks_" + kind)
            after = snapshot(dealer)
            ctx.check(state == after, "looking at the table ({}) changed it from {} to {}",
                      kind, state, after)
        silent.truncate(0)
        silent.seek(0)

    watched = run(fresh(config), seed, bets, hand_count, look)
    same(ctx, plain, watched, "the same game while being looked at")
    ctx.count("games_compared")
    ctx.evaluated()
    ctx.nontrivial(plain[-1])
    ctx.sample({"config": config, "calls": len(plain)})


def _board(config):
    board = config["num_community_cards"]
    return board if isinstance(board, list) else [board] * config["num_streets"]


def snapshot(dealer):
    """Everything public about a table, and the state of the random source."""
    return (
        list(dealer.stacks), list(dealer.active), dealer.button, dealer.action, dealer.pot,
        [hands.parse(c) for c in dealer.community_cards],
        [[hands.parse(c) for c in h] for h in dealer.hole_cards],
        [hands.parse(c) for c in dealer.deck.cards], hash(random.getstate()),
    )


# --------------------------------------------------------------------- C29
def _refused(ctx, what, errors, call):
    ctx.trace["call"] = what
    try:
        call()
    except errors:
        ctx.count("refusals")
        ctx.nontrivial(what)
        ctx.evaluated()
    except Exception as exc:
        ctx.fail(f"{what}: refused with {type(exc).__name__}: {exc}")
    else:
        ctx.fail(f"{what}: accepted")


def nuisances(rng, config, ctx):
    """The same game with and without refused calls in between."""
    seed, bets = rng.random(), rng.random()
    ctx.trace = {"kind": 8, "config": config, "seed": seed, "bets": bets}
    hand_count = rng.randint(2, 4)
    plain = run(fresh(config), seed, bets, hand_count)
    calls = random.Random(rng.random())
    nonsense = [float("nan"), float("inf"), -float("inf"), None, "call", "", [1], {}, 2j]

    class Accepted(Exception):
        pass

    def disturb(dealer, obs, over):
        before = snapshot(dealer)
        for _ in range(calls.randint(0, 3)):
            kind = calls.choice(["bet", "bet", "mode", "deal", "class"])
            call = kind
            try:
                if kind == "bet" and not over:
                    bet = calls.choice(nonsense)
                    call = f"step({bet!r})"
                    dealer.step(bet)
                    raise Accepted
                elif kind == "mode":
                    call = 'render("web")'
                    dealer.render("web")
                elif kind == "class":
                    rank = calls.choice([-1, -7, 10 ** 7])
                    call = f"get_rank_class({rank})"
                    dealer.evaluator.get_rank_class(rank)
                elif kind == "deal" and sum(s > 0 for s in dealer.stacks) < 2:
                    call = "reset()"
                    dealer.reset(reset_button=calls.random() < 0.5)
                else:
                    continue
            except Accepted:
                raise
            except Exception as exc:
                wanted = {"mode": error.InvalidRenderModeError,
                          "class": error.InvalidHandRankError,
                          "deal": error.TooFewActivePlayersError}.get(kind, Exception)
                ctx.check(isinstance(exc, wanted), "{} in mid-game: refused with {!r}", call, exc)
            else:
                ctx.fail(f"{call} in mid-game: accepted")
            ctx.count("refused_in_game")
            ctx.count("refused_" + kind + ("_after_the_hand" if over else ""))
            after = snapshot(dealer)
            ctx.check(after == before, "{}: refused, but the table changed from {} to {}",
                      call, before, after)

    try:
        disturbed = run(fresh(config), seed, bets, hand_count, disturb)
    except Accepted:
        ctx.count("nonsense_accepted")
        return
    same(ctx, plain, disturbed, "the same game with refused calls in between")
    ctx.count("disturbed_games")
    ctx.nontrivial(plain[-1])
    ctx.evaluated()


def refusals(rng, index, ctx):
    kind = index % 9
    ctx.trace = {"kind": kind}
    config = gen.any_config(rng)
    if kind == 8:
        nuisances(rng, config, ctx)
        ctx.sample(dict(ctx.trace), 5)
        return
    if kind == 0:
        for key, length in (("blinds", "num_players"), ("antes", "num_players"),
                            ("raise_sizes", "num_streets"), ("num_raises", "num_streets"),
                            ("num_community_cards", "num_streets")):
            size = config[length]
            for wrong in {0, size - 1, size + 1, size + rng.randint(2, 5)} - {size}:
                bad = dict(config, **{key: [1] * max(0, wrong)})
                _refused(ctx, f"{key} of length {wrong} for {size}", error.InvalidConfigError,
                         lambda: clubs.Dealer(**bad))
    elif kind == 1:
        streets = config["num_streets"]
        for size in ("Pot", "all", "INF", "", "1", None, 2.5, -float("inf"), (1, 2), "nan"):
            bad = dict(config, raise_sizes=size)
            _refused(ctx, f"raise size {size!r}", error.InvalidRaiseSizeError,
                     lambda: clubs.Dealer(**bad))
            sizes = [rng.choice([1, "pot", "inf"]) for _ in range(streets)]
            sizes[rng.randrange(streets)] = size
            bad = dict(config, raise_sizes=sizes)
            _refused(ctx, f"raise sizes {sizes!r}", error.InvalidRaiseSizeError,
                     lambda: clubs.Dealer(**bad))
    elif kind == 2:
        for suits in (0, 5, -1, rng.randint(6, 100)):
            _refused(ctx, f"deck of {suits} suits", error.InvalidSuitError,
                     lambda: clubs.Deck(suits, rng.randint(1, 13)))
            bad = dict(config, num_suits=suits)
            _refused(ctx, f"table with {suits} suits", error.InvalidSuitError,
                     lambda: clubs.Dealer(**bad))
        for ranks in (0, 14, -1, rng.randint(15, 100)):
            _refused(ctx, f"deck of {ranks} ranks", error.InvalidRankError,
                     lambda: clubs.Deck(rng.randint(1, 4), ranks))
            bad = dict(config, num_ranks=ranks)
            _refused(ctx, f"table with {ranks} ranks", error.InvalidRankError,
                     lambda: clubs.Dealer(**bad))
    elif kind == 3:
        suits, ranks = rng.randint(2, 4), rng.randint(3, 13)
        for n in (0, -1, 6, 7, rng.randint(8, 52)):
            _refused(ctx, f"{n} card hands", error.InvalidHandSizeError,
                     lambda: clubs.Evaluator(suits, ranks, n))
            bad = dict(config, num_cards_for_hand=n)
            _refused(ctx, f"table with {n} card hands", error.InvalidHandSizeError,
                     lambda: clubs.Dealer(**bad))
    elif kind == 4:
        good = gen.CAT_NAMES[:]
        rng.shuffle(good)
        spot = rng.randrange(9)
        for order in (good[:spot] + good[spot + 1:], good + [rng.choice(good)],
                      good[:spot] + ["xx"] + good[spot + 1:], [],
                      good[:spot] + [good[spot - 1]] + good[spot + 1:],
                      [c.upper() for c in good]):
            for make in (lambda o: clubs.Evaluator(4, 13, 5, order=o),
                         lambda o: clubs.LookupTable(4, 13, 5, order=o),
                         lambda o: clubs.Dealer(**dict(config, order=o))):
                _refused(ctx, f"order {order}", error.InvalidOrderError, lambda: make(order))
        clubs.Evaluator(4, 13, 5, order=good)
        ctx.count("valid_accepted")
    elif kind == 5:
        for wrong in ("", "ASCII", "web", "Human", 3, rng.choice("xyz") * 5):
            dealer = clubs.Dealer(**config)
            if rng.random() < 0.7:
                dealer.reset(reset_stacks=True)
                before = snapshot(dealer)
            else:
                before = None
            _refused(ctx, f"render mode {wrong!r}", error.InvalidRenderModeError,
                     lambda: dealer.render(wrong))
            if before is not None:
                ctx.check(snapshot(dealer) == before, "a refused render changed the table")
                with contextlib.redirect_stdout(io.StringIO()) as out:
                    dealer.render("ascii")
                ctx.check(len(out.getvalue()) > 500, "no rendering after a refused one")
                viewer = dealer.viewer
                with contextlib.redirect_stdout(io.StringIO()) as out:
                    _refused(ctx, f"render mode {wrong!r} of a table with a viewer",
                             error.InvalidRenderModeError, lambda: dealer.render(wrong))
                ctx.check(snapshot(dealer) == before and dealer.viewer is viewer
                          and not out.getvalue(),
                          "a refused render of a table with a viewer is noticed")
                ctx.count("refused_modes_beside_a_viewer")
                ctx.count("valid_accepted")
    elif kind == 6:
        dealer = clubs.Dealer(**config)
        for bet in (0, 1, -1, rng.randint(2, 1000), 2.25):
            _refused(ctx, f"step({bet}) before reset", error.TableResetError,
                     lambda: dealer.step(bet))
        obs = dealer.reset()
        ctx.check(0 <= obs["action"] < config["num_players"] and
                  sum(obs["stacks"]) + obs["pot"] ==
                  config["num_players"] * config["start_stack"],
                  "refused steps changed the first deal to {}", obs)
        ctx.count("valid_accepted")
    else:
        n = config["num_players"]
        dealer = clubs.Dealer(**config)
        dealer.reset()
        for _ in range(300):
            _, _, done = dealer.step(0)
            if all(done):
                break
        for _ in range(3):
            stacks = [0] * n
            if rng.random() < 0.8:
                stacks[rng.randrange(n)] = rng.randint(1, 10 ** 6)
            dealer.stacks = list(stacks)
            before = snapshot(dealer)
            button = dealer.button
            _refused(ctx, f"deal with stacks {stacks}", error.TooFewActivePlayersError,
                     lambda: dealer.reset(reset_button=rng.random() < 0.5))
            ctx.check(snapshot(dealer) == before, "a refused deal changed the table from {} "
                      "to {}", before, snapshot(dealer))
            obs = dealer.step(0)[0]
            ctx.check(obs["action"] == -1 and list(obs["stacks"]) == stacks,
                      "a step after a refused deal reports {}", obs)
            dealer.stacks = [rng.randint(1, 9) for _ in range(n)]
            obs = dealer.reset()
            ctx.check(obs["button"] == (button + 1) % n, "button on {} after a refused deal, "
                      "was on {}", obs["button"], button)
            ctx.count("valid_accepted")
            for _ in range(300):
                _, _, done = dealer.step(0)
                if all(done):
                    break
    ctx.sample(dict(ctx.trace), 5)


# --------------------------------------------------------------------- C31
def spelled_out(rng, config):
    """The same table, single values written as lists (some of them)."""
    out = fresh(config)
    for key, length in (("blinds", "num_players"), ("antes", "num_players"),
                        ("raise_sizes", "num_streets"), ("num_raises", "num_streets"),
                        ("num_community_cards", "num_streets")):
        if not isinstance(out[key], list):
            out[key] = [out[key]] * config[length]
        if key in ("raise_sizes", "num_raises"):
            out[key] = [{"inf": float("inf"), float("inf"): "inf"}.get(v, v) for v in out[key]]
    for key, default in (("order", None), ("low_end_straight", True)):
        if out.get(key, default) == default and rng.random() < 0.5:
            out.pop(key, None)
    return out


# from the best to the worst hand of short deck hold'em
SHOWN = ["9h Th Jh Qh Kh", "7h 7c 7d 7s Kh", "7h 9h Th Qh Kh", "7h 7c 7d Ks Kh",
         "9h Tc Jd Qs Kh", "7h 7c 7d Qs Kh", "7h 7c Qd Qs Kh", "7h 7c 9d Qs Kh",
         "7h 8c 9d Qs Kh"]


def named(ctx, name, cfg):
    """The preset is the game, limit and size its name says."""
    words = name.split("_")

    def is_(what, got, *wanted):
        ctx.check(got in wanted, "preset {}: {} are {}", name, what, got)
        ctx.count("preset_facts")

    is_("players", cfg.n, {"TWO": 2, "THREE": 3, "SIX": 6, "NINE": 9}[words[-2]])
    ctx.check(cfg.start > 2 * (max(cfg.blinds) + max(cfg.antes)) > 0,
              "preset {}: {} chips for blinds {} and antes {}", name, cfg.start, cfg.blinds,
              cfg.antes)
    if words[0] in ("KUHN", "LEDUC"):
        # all that is known of the games but the number of ranks of Kuhn for three
        is_("blinds", set(cfg.blinds), {0})
        is_("antes", set(cfg.antes), {1})
        is_("hole cards", cfg.hole, 1)
        ctx.check(all(isinstance(s, int) for s in cfg.sizes), "preset {}: limits {}", name,
                  cfg.sizes)
    if words[0] == "KUHN":
        is_("decks", cfg.suits, 1)
        ctx.check(cfg.n <= cfg.ranks <= cfg.n + 1, "preset {}: {} cards", name, cfg.ranks)
        is_("boards", cfg.board, [0])
        is_("hands", cfg.hand, 1)
        is_("raises", cfg.caps, [1])
        is_("raise sizes", cfg.sizes, [1])
        return
    if words[0] == "LEDUC":
        is_("decks", (cfg.suits, cfg.ranks), (2, 3))
        is_("boards", cfg.board, [0, 1])
        is_("hands", cfg.hand, 2)
        is_("raises", cfg.caps, [2, 2])
        is_("raise sizes", cfg.sizes, [2, 2], [2, 4])
        return
    small, big = cfg.blinds[:2]
    ctx.check(0 < small < big and not any(cfg.blinds[2:]), "preset {}: blinds {}", name,
              cfg.blinds)
    if "ANTE" in words:
        ctx.check(cfg.antes[1] > 0 and sum(cfg.antes) == cfg.antes[1],
                  "preset {}: antes {}", name, cfg.antes)
    else:
        is_("antes", set(cfg.antes), {0})
    is_("suits", cfg.suits, 4)
    is_("ranks", cfg.ranks, 9 if words[0] == "SHORT" else 13)
    is_("boards", cfg.board, [0, 3, 1, 1])
    is_("hands", cfg.hand, 5)
    is_("hole cards", (cfg.hole, cfg.mandatory), (4, 2) if "OMAHA" in words else (2, 0))
    is_("low straights", cfg.low, True)
    if words[0] == "LIMIT":
        is_("limits", cfg.sizes, [big, big, 2 * big, 2 * big])
        ctx.check(all(3 <= cap <= 4 for cap in cfg.caps), "preset {}: {} raises", name,
                  cfg.caps)
    else:
        is_("limits", set(cfg.sizes), {"pot"} if words[0] == "POT" else {float("inf")})
        is_("raises", set(cfg.caps), {float("inf")})
    # the order of the hands, as the table ranks them
    evaluator = clubs.Dealer(**fresh(cfg.raw)).evaluator
    ranks = []
    for hand in SHOWN:
        dealt = [clubs.Card(c) for c in hand.split()]
        ranks.append(evaluator.evaluate(dealt[:cfg.mandatory], dealt[cfg.mandatory:]))
    if words[0] != "SHORT":
        ranks[2:4] = ranks[3:1:-1]
    ctx.check(ranks == sorted(set(ranks)), "preset {}: ranks of {} are {}", name,
              SHOWN, ranks)


def siblings(ctx, name, cfg):
    """Presets of one game differ in nothing but the number of seats."""
    game = name.rsplit("_", 2)[0]
    for other in gen.PRESETS:
        if other == name or other.rsplit("_", 2)[0] != game or not hasattr(clubs.configs, other):
            continue
        that = rules.Cfg(gen.preset(None, other))
        for what in ("sizes", "caps", "suits", "hole", "board", "hand", "mandatory", "low",
                     "start"):
            one, two = getattr(cfg, what), getattr(that, what)
            ctx.check(one == two, "{} and {} differ in {}: {} and {}", name, other, what, one,
                      two)
        for one, two in ((cfg.blinds, that.blinds), (cfg.antes, that.antes)):
            ctx.check(one[:2] == two[:2], "{} and {} differ in forced bets: {} and {}", name,
                      other, one, two)
        ctx.count("presets_compared")


def equivalence(rng, index, ctx):
    config = gen.any_config(rng)
    for key, value in (("blinds", rng.randint(0, 5)), ("antes", rng.randint(0, 3)),
                       ("raise_sizes", rng.choice([2, "inf", "pot", float("inf")])),
                       ("num_raises", rng.choice([1, 3, "inf", float("inf")]))):
        if rng.random() < 0.6:
            config[key] = value
    other = spelled_out(rng, config)
    seed, bets = rng.random(), rng.random()
    ctx.trace = {"config": config, "spelled_out": other, "seed": seed, "bets": bets}
    short, long = run(fresh(config), seed, bets, 2), run(other, seed, bets, 2)
    same(ctx, short, long, f"{config} and {other}")
    ctx.count("spellings_compared")
    ctx.nontrivial(short[-1])
    # every preset is a table that works, judged by the other monitors
    name = gen.PRESETS[index % len(gen.PRESETS)]
    ctx.check(hasattr(clubs.configs, name), "preset {} is gone", name)
    preset = gen.preset(rng, name)
    game = drive.Game(ctx, rng, preset, [
        table.Conservation(), table.Settlement(), table.Showdown(), table.Offers(),
        table.TurnOrder(), table.Streets(), table.ForcedBets()])
    named(ctx, name, game.cfg)
    siblings(ctx, name, game.cfg)
    game.session(2, uneven=rng.random() < 0.5)
    ctx.count("preset_sessions")
    ctx.evaluated()
    ctx.sample({"config": config, "spelled_out": other, "preset": name})
