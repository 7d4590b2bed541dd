"""Monitors of the text rendering."""
import contextlib
import io
import re

from mon import drive, gen, hands
from mon.props import table

CARD = r"(?:\?\?|--|[2-9TJQKA][\u2660\u2665\u2666\u2663])"
ENTRY = re.compile(rf"(?<!\S)(\d+)\. +({CARD}(?:,{CARD})*) +(-?[\d,]+)(?!\S)")
TOKEN = re.compile("[2-9TJQKA][\u2660\u2665\u2666\u2663]")
BOARD = re.compile(rf"\[({CARD}(?:,{CARD})*|)\] +(-?[\d,]+)")


def number(text):
    return int(text.replace(",", ""))


def show(card):
    return hands.RANKS[card[0]] + hands.SUIT_CHARS[hands.SUITS[card[1]]]


class Picture:
    """A rendered table, read back from its text."""

    def __init__(self, text):
        self.text = text
        self.seats = {}
        lines = text.splitlines()
        left, right = [], []
        for line, below in zip(lines, lines[1:]):
            for match in ENTRY.finditer(line):
                # wide entries push those right of them further to the right
                side = left if match.start() < 20 else right
                gap = max(re.finditer(" +", below.rstrip(" ")[:-1]),
                          key=lambda m: m.end() - m.start())
                part = below[:gap.end()] if side is left else below[gap.start():]
                marks = [w for w in re.split(r"[\s|/\\]+", part) if w]
                seat = int(match.group(1)) - 1
                if seat in self.seats:
                    raise ValueError(f"seat {seat} is drawn twice")
                amounts = [m for m in marks if re.fullmatch(r"-?[\d,]+", m)]
                if len(amounts) != 1:
                    raise ValueError(f"seat {seat} has amounts {amounts}")
                self.seats[seat] = {
                    "cards": match.group(2).split(","),
                    "stack": number(match.group(3)),
                    "amount": number(amounts[0]),
                    "marks": sorted(m for m in marks if m not in amounts),
                }
                side.append(seat)
        # clockwise from the top left: down the right side, up the left side
        self.clockwise = left[:1] + right + left[:0:-1]
        found = BOARD.search(text)
        if not found:
            raise ValueError("no board drawn")
        self.board = found.group(1).split(",") if found.group(1) else []
        self.pot = number(found.group(2))
        self.footer = " ".join(" ".join(lines[-2:]).split())


def compare(ctx, fail, text, state):
    """The text must show exactly the state, see TextView.look for its fields."""
    def check(condition, what, *args):
        if not condition:
            fail(what.format(*args) + f":\n{text}")

    try:
        picture = Picture(text)
    except ValueError as exc:
        fail(f"{exc}:\n{text}")
    ctx.count("pictures")
    seats, done = range(len(state["stacks"])), state["done"]
    check(sorted(picture.seats) == list(seats), "seats drawn {}", sorted(picture.seats))
    check(picture.clockwise == list(seats), "seats around the table {}", picture.clockwise)
    may_show = set(state["board"])
    for seat in seats:
        got = picture.seats[seat]
        if not state["active"][seat]:
            cards = ["--"] * state["hole"]
            ctx.count("folded_hands_drawn")
        elif done or seat == state["action"]:
            cards = state["holes"][seat]
            may_show.update(cards)
            ctx.count("hands_shown")
        else:
            cards = ["??"] * state["hole"]
            ctx.count("hidden_hands_drawn")
        check(got["cards"] == cards, "seat {} drawn with {} instead of {}", seat,
              got["cards"], cards)
        check(got["stack"] == state["stacks"][seat],
              "stack of seat {} drawn as {} instead of {}", seat, got["stack"],
              state["stacks"][seat])
        amount = state["payouts"][seat] if done else state["street_commits"][seat]
        check(got["amount"] == amount, "amount of seat {} drawn as {} instead of {}", seat,
              got["amount"], amount)
        marks = []
        if seat == state["button"]:
            marks.append("D")
        if not done and state["all_in"][seat]:
            marks.append("A")
            ctx.count("all_in_marks")
        elif not done and seat == state["action"]:
            marks.append("X")
        check(got["marks"] == sorted(marks), "seat {} marked {} instead of {}", seat,
              got["marks"], marks)
    leaked = set(TOKEN.findall(text)) - may_show
    check(not leaked, "cards {} can be seen", leaked)
    board = state["board"] + ["--"] * (state["places"] - len(state["board"]))
    check(picture.board == board, "board drawn as {} instead of {}", picture.board, board)
    pot = 0 if done else state["pot"]
    check(picture.pot == pot, "pot drawn as {} instead of {}", picture.pot, pot)
    if done:
        winners = [(s + 1, p) for s, p in enumerate(state["payouts"]) if p > 0]
        if winners:
            ctx.count("win_lines")
            want = (f"Player{'s' if len(winners) > 1 else ''} "
                    f"{', '.join(str(s) for s, _ in winners)} won "
                    f"{', '.join(str(p) for _, p in winners)}"
                    f"{' respectively' if len(winners) > 1 else ''}")
            check(picture.footer == want, "result told as {!r} instead of {!r}",
                  picture.footer, want)
        check("Action on" not in picture.footer, "action after the hand")
        return
    want = f"Action on Player {state['action'] + 1}"
    if state["last"] is not None:
        ctx.count("action_lines")
        seat, paid, folds = state["last"]
        what = "folded" if folds else f"bet {paid}" if paid else "checked"
        want = f"Player {seat + 1} {what} {want}"
    check(picture.footer == want, "told {!r} instead of {!r}", picture.footer, want)


class TextView(drive.Monitor):
    def on_reset(self, obs):
        self.look(obs, None)

    def on_step(self, step):
        self.look(step.after, step)

    def look(self, obs, step):
        g, d = self.game, self.game.dealer
        text = str(d)
        with contextlib.redirect_stdout(io.StringIO()) as out:
            d.render("ascii")
        self.check(out.getvalue() == text + "\n", "render('ascii') printed\n{}\nstr() gives\n{}",
                   out.getvalue(), text)
        done = step is not None and step.ended
        compare(self.ctx, g.fail, text, {
            "done": done, "hole": g.cfg.hole, "places": sum(g.cfg.board),
            "holes": [[show(c) for c in hand] for hand in g.holes()],
            "board": [show(c) for c in g.board()],
            "all_in": [live and stack == 0 for live, stack in zip(obs["active"],
                                                                  obs["stacks"])],
            "payouts": step.payouts if step else None,
            "last": (step.seat, step.paid, step.folds) if step else None,
            **{key: obs[key] for key in ("action", "active", "button", "stacks", "pot",
                                         "street_commits")},
        })
        self.ctx.nontrivial(text)


def text_view(rng, index, ctx):
    config = gen.any_config(rng)
    game = drive.Game(ctx, rng, config, [TextView()])
    # the reference is not needed here, only what the dealer itself reports
    game.session(rng.randint(1, 4), uneven=True)
    ctx.evaluated()
    ctx.sample(str(game.dealer))


__all__ = ["table"]
