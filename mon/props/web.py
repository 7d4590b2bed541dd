"""Monitors of the web table: delivery, page, script, server lifecycle."""
import contextlib
import http.client
import io
import json
import multiprocessing
import os
import random
import re
import signal
import socket
import struct
import subprocess
import sys
import tempfile
import threading
import time
import urllib.request
from xml.etree import ElementTree

import clubs
from clubs import error, render

from mon import drive, gen, hands, shapes
from mon.worker import Inconclusive, Violation

WAIT = 25  # seconds a state may take to arrive
_ports = None
_open = []


def free_pair(ctx, host="127.0.0.1"):
    """Two neighbouring free ports; every shard has a range of its own."""
    global _ports
    if _ports is None:
        size = 1000
        base = 15000 + (ctx.shard % 16) * size
        start = os.getpid() * 7 % size
        _ports = iter([base + (start + i) % size // 2 * 2 for i in range(0, size * 50, 2)])
    for port in _ports:
        try:
            for number in (port, port + 1):
                with socket.socket() as probe:
                    probe.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
                    probe.bind((host, number))
            return port
        except OSError:
            continue
    raise Inconclusive("no free ports")


def start_viewer(ctx, n, hole, board, host="127.0.0.1", make=None, looped=False):
    """A running viewer; a machine too slow to start it is no verdict."""
    failures, calm = 0, False
    while True:
        port = free_pair(ctx, host)
        before = multiprocessing.active_children()
        try:
            with contextlib.redirect_stdout(io.StringIO()) as out, contextlib.ExitStack() as odd:
                if looped:
                    odd.enter_context(own_connection(ctx, port))
                if make:
                    viewer = make(host, port)
                else:
                    viewer = render.GraphicViewer(n, hole, board, host=host, port=port)
            _open.append(viewer)
            ctx.count("servers_started")
            viewer.announced = out.getvalue()
            viewer.children = [c for c in multiprocessing.active_children() if c not in before]
            return viewer
        except (error.RenderInitializationError, ConnectionError) as exc:
            ctx.count("slow_starts")
            failures += 1
            if calm:
                ctx.fail(f"{failures} servers in a row did not start: {exc}")
            if failures >= 20:
                raise Inconclusive("no server starts, the machine is too slow")
            # a start gets ten seconds: that says nothing where loading takes half of it
            calm = failures >= 2 and loading_time() < 4
            time.sleep(random.random())


@contextlib.contextmanager
def own_connection(ctx, page):
    """The first connection gets the port it goes to as its own, as it happens in 1 of 50 starts.

    While nobody listens on a port among those the system gives to outgoing connections, a
    connection to it can be given the same port and is then connected to itself."""
    connect = socket.socket.connect
    tried = []

    def unlucky(self, address):
        if not tried and self.family == socket.AF_INET and address[1] != page:
            tried.append(address)
            with contextlib.suppress(OSError):
                self.bind(address)
                ctx.count("own_connections")
        return connect(self, address)

    socket.socket.connect = unlucky
    try:
        yield
    finally:
        socket.socket.connect = connect


def loading_time():
    """Seconds it takes to load what a server needs."""
    start = time.time()
    subprocess.run([sys.executable, "-c", "from gevent import monkey\nmonkey.patch_all()\n"
                    "import flask, flask_socketio"], stdout=subprocess.DEVNULL,
                   stderr=subprocess.DEVNULL)
    return time.time() - start


def stop_viewer(viewer):
    if viewer in _open:
        _open.remove(viewer)
    viewer.close()


def close():
    """Ends what is left of the servers started by this worker."""
    for viewer in list(_open):
        try:
            viewer.close()
        except Exception:
            pass
    for child in multiprocessing.active_children():
        child.kill()


class Browser:
    """A socket.io client (engine.io protocol 3, long polling)."""

    def __init__(self, host, port, timeout=WAIT):
        self.host, self.port = host, port
        self.http = http.client.HTTPConnection(host, port, timeout=timeout)
        self.received = []
        self.queue = []
        opened = self.request("GET", "transport=polling")
        self.sid = json.loads(opened[0][1:])["sid"]
        self.take(opened[1:])

    def request(self, method, query, body=None):
        path = f"/socket.io/?EIO=3&b64=1&{query}"
        headers = {"Content-Type": "text/plain;charset=UTF-8"} if body else {}
        self.http.request(method, path, body, headers)
        answer = self.http.getresponse()
        data = answer.read().decode("utf8")
        if answer.status != 200:
            raise Violation(f"web server answers {answer.status} to {path}: {data[:200]}")
        out = []
        while method == "GET" and data:
            size, data = data.split(":", 1)
            out.append(data[: int(size)])
            data = data[int(size):]
        return out

    def take(self, packets):
        for packet in packets:
            if packet.startswith("42"):
                name, *args = json.loads(packet[2:])
                if name == "config":
                    self.received.append(args[0])

    def poll(self):
        packets = self.request("GET", f"transport=polling&sid={self.sid}")
        self.take(packets)

    def until(self, condition, seconds=WAIT):
        """Polls until condition() holds; False if it does not in time."""
        end = time.time() + seconds
        while not condition():
            left = end - time.time()
            if left <= 0:
                return False
            self.http.timeout = left
            if self.http.sock:
                self.http.sock.settimeout(left)
            try:
                self.poll()
            except (socket.timeout, http.client.HTTPException, ConnectionError):
                return bool(condition())
        return True

    def close(self):
        self.http.close()


class Nuisance:
    """Other clients which come, leave, stall and send nonsense."""

    def __init__(self, rng, viewer, ctx):
        self.rng, self.viewer, self.ctx = rng, viewer, ctx
        self.kept = []
        self.left = 0

    def socket(self, offset=0):
        sock = socket.create_connection((self.viewer.host, self.viewer.port + offset), 1)
        self.kept.append(sock)
        return sock

    def act(self):
        # the patience of the other browsers must not run out
        self.left -= 1
        if self.left < 0:
            return
        kind = self.rng.choice([self.garbage, self.stall, self.strange_page, self.abandon,
                                self.vanish, self.nonsense, self.control])
        try:
            kind()
        except (OSError, http.client.HTTPException, Violation, ValueError):
            pass  # may be treated any way, the others matter
        self.ctx.count("nuisances")
        self.ctx.count("nuisance_" + kind.__name__)

    def garbage(self):
        sock = self.socket()
        sock.sendall(bytes(self.rng.randrange(256) for _ in range(self.rng.randint(1, 3000))))
        if self.rng.random() < 0.5:
            reset(sock)

    def stall(self):
        self.socket().sendall(b"GET /socket.io/?EIO=3&transport=pol")

    def strange_page(self):
        conn = http.client.HTTPConnection(self.viewer.host, self.viewer.port, timeout=1)
        path = self.rng.choice(["/nothing", "/static/../graphic.py", "/socket.io/?EIO=9",
                                "/socket.io/?EIO=3&transport=polling&sid=nobody", "/%00%ff"])
        conn.request(self.rng.choice(["GET", "POST", "DELETE"]), path, "x" * 10)
        conn.getresponse().read()
        conn.close()

    def abandon(self):
        Browser(self.viewer.host, self.viewer.port, 1).close()

    def vanish(self):
        browser = Browser(self.viewer.host, self.viewer.port, 1)
        browser.http.request("GET", "/socket.io/?EIO=3&b64=1&transport=polling&sid="
                             + browser.sid)
        reset(browser.http.sock)

    def nonsense(self):
        browser = Browser(self.viewer.host, self.viewer.port, 1)
        for packet in ('42["config",{"pot":-5,"hole_cards":[]}]', '42["unknown",1]',
                       "42not json", "9", "41"):
            if self.rng.random() < 0.6:
                browser.request("POST", f"transport=polling&sid={browser.sid}",
                                f"{len(packet)}:{packet}")
        browser.close()

    def control(self):
        # the viewer holds the server's only control connection
        sock = self.socket(1)
        sock.settimeout(0.2)
        sock.sendall(b"#WELCOME#" + bytes(self.rng.randrange(256) for _ in range(30)))
        if self.rng.random() < 0.7:
            reset(sock)

    def close(self):
        for sock in self.kept:
            sock.close()


def reset(sock):
    """Closes a connection the hard way."""
    sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
    sock.close()


def picture(dealer, obs, step):
    """What the page has to be told about a state, from public values."""
    done = step is not None and step.ended
    return {
        "action": obs["action"], "active": obs["active"], "button": obs["button"],
        "community_cards": [str(c) for c in dealer.community_cards],
        "hole_cards": [[str(c) for c in h] for h in dealer.hole_cards],
        "pot": obs["pot"], "stacks": obs["stacks"],
        "street_commits": obs["street_commits"], "done": done,
        "all_in": [a and s == 0 for a, s in zip(obs["active"], obs["stacks"])],
        "payouts": step.payouts if step else None,
    }


def matches(got, want):
    return all(value is None or got.get(key) == value for key, value in want.items())


class Projector(drive.Monitor):
    """Renders every state and keeps what the page has to show."""

    def __init__(self, every=1.0, nuisance=None):
        self.every, self.shown = every, []
        self.nuisance, self.pause = nuisance, None

    def on_reset(self, obs):
        self.show(obs, None)

    def on_step(self, step):
        self.show(step.after, step)

    def show(self, obs, step):
        if self.game.rng.random() < self.every:
            self.game.dealer.render("human")
            self.shown.append(picture(self.game.dealer, obs, step))
        if self.pause:
            self.pause()
        if self.nuisance and self.game.rng.random() < 0.15:
            self.nuisance.act()


def web_config(rng, players=None, limit=10 ** 6):
    while True:
        config = gen.any_config(rng) if players is None else gen.config(rng, players=players)
        if config["start_stack"] <= limit:
            return config


def broad_config(rng, index):
    """Every few cases a table with many hole or board cards."""
    if index % 4:
        return web_config(rng)
    config = web_config(rng, players=rng.choice([2, 3, 4, 6]))
    streets = config["num_streets"]
    if index % 8:
        hole, board = rng.randint(5, 7), rng.randint(0, 5)
    else:
        hole, board = rng.randint(1, 3), rng.randint(6, 9)
    config.update(num_suits=4, num_ranks=13, num_hole_cards=hole, mandatory_num_hole_cards=0,
                  num_community_cards=gen.split_cards(rng, board, streets),
                  num_cards_for_hand=rng.choice([1, 2]))
    return config


def board_size(config):
    board = config["num_community_cards"]
    return sum(board) if isinstance(board, list) else board * config["num_streets"]


# --------------------------------------------------------------------- C25
def delivery(rng, index, ctx):
    config = broad_config(rng, index)
    dealer = clubs.Dealer(**config)
    by_render = rng.random() < 0.5

    last = None

    def make(host, port):
        nonlocal last
        obs = dealer.reset(reset_stacks=True)
        dealer.viewer = None
        dealer.render("human", host=host, port=port)
        last = picture(dealer, obs, None)
        return dealer.viewer

    viewer = start_viewer(ctx, config["num_players"], config["num_hole_cards"],
                          board_size(config), make=make if by_render else None,
                          looped=index % 4 == 1)
    dealer.viewer = viewer
    nuisance = Nuisance(rng, viewer, ctx) if index % 2 else None
    crowd = rng.randint(9, 16) if index % 6 == 3 else 4
    browsers = []
    try:
        browsers.append(Browser(viewer.host, viewer.port))
        for round_number in range(5 if ctx.quick else 12):
            for _ in range(1 if crowd == 4 else rng.randint(2, 8)):
                if len(browsers) < crowd and rng.random() < 0.5:
                    browsers.append(Browser(viewer.host, viewer.port))
                    ctx.count("late_browsers", round_number > 0)
            ctx.most("browsers_at_once", len(browsers))
            # everybody up to date and connected before the next states
            if last:
                for browser in browsers:
                    arrive(ctx, browser, last, "state known before")
            else:
                for browser in browsers:
                    ctx.check(browser.until(lambda b=browser: b.received),
                              "a browser is told nothing when it connects")
            starts = [len(b.received) for b in browsers]
            if nuisance:
                nuisance.left = 4
            projector = Projector(rng.choice([1.0, 1.0, 0.5]), nuisance)
            passers = None
            if round_number % 5 == 3 and index % 3 < 2:
                projector = Projector(1.0)
                passers = Passers(rng, viewer, projector)
            game = drive.Game(ctx, rng, config, [projector], dealer=dealer)
            # now and then nobody looks for a whole evening
            evening = index % 6 == 5 and round_number == 2
            if passers:
                passers.start()
            game.session(rng.randint(20, 40) if evening else rng.randint(2, 4) if passers
                         else rng.randint(1, 2))
            ended = picture(dealer, game.obs, type("Last", (), {
                "ended": True, "payouts": game.trace["hands"][-1]["payouts"]}))
            while True:
                dealer.render("human")
                projector.shown.append(ended)
                if not passers or not passers.is_alive():
                    break
                time.sleep(0.02)  # who looks in passing waits for the next state
            last, before = projector.shown[-1], last
            if passers:
                passers.told(ctx, before)
            for browser, start in zip(browsers, starts):
                follow(ctx, browser, start, projector.shown)
            ctx.count("states_rendered", len(projector.shown))
            ctx.most("states_between_two_looks", len(projector.shown))
            ctx.nontrivial(last)
        ctx.sample({"config": config, "browsers": len(browsers),
                    "first_state": projector.shown[0]})
        # a browser which comes after the game sees its last state
        late = Browser(viewer.host, viewer.port)
        browsers.append(late)
        arrive(ctx, late, last, "last state")
        ctx.count("browsers_after_the_game")
        strays = [g for g in late.received if g and not matches(g, last)]
        ctx.check(not strays, "a late browser is shown an old state {}", strays[:1])
    finally:
        for browser in browsers:
            browser.close()
        if nuisance:
            nuisance.close()
        stop_viewer(viewer)
    ctx.evaluated()


class Passers(threading.Thread):
    """Browsers which connect, and some which look, while states are being rendered."""

    def __init__(self, rng, viewer, projector):
        super().__init__(daemon=True)
        self.rng, self.viewer = random.Random(rng.random()), viewer
        self.projector, self.dawdle = projector, random.Random(rng.random())
        projector.pause = lambda: time.sleep(self.dawdle.choice([0, 0, 0.0005, 0.003]))
        self.browsers, self.seen, self.problem = [], [], None

    def run(self):
        try:
            for _ in range(self.rng.randint(4, 8)):
                self.seen.append(len(self.projector.shown))
                self.browsers.append(Browser(self.viewer.host, self.viewer.port))
                time.sleep(self.rng.choice([0, 0.001, 0.004, 0.015]))
                if self.rng.random() < 0.5:
                    self.rng.choice(self.browsers).poll()
        except Exception as exc:  # handed to the case
            self.problem = exc

    def told(self, ctx, before):
        """Each was told the state it came upon and all later ones, in order."""
        self.join()
        if self.problem:
            raise self.problem
        shown = [before] * (before is not None) + self.projector.shown
        for browser, came in zip(self.browsers, self.seen):
            def follows(told=browser.received):
                told = [g for g in told if g]
                return any(contiguous(told, shown[start:]) for start in range(len(shown)))

            followed = browser.until(follows)
            got = [g for g in browser.received if g]
            ctx.check(followed,
                      "a browser which came after {} of {} states was told {} states which "
                      "are not the following ones in order: {}", came, len(shown), len(got),
                      got)
            ctx.count("browsers_in_passing")
            ctx.count("browsers_in_between", 1 < len(got) < len(shown) - 1)
            browser.close()


def contiguous(got, shown):
    """All the states in order; each may be told again while it is the latest."""
    at = -1
    for state in got:
        if at + 1 < len(shown) and matches(state, shown[at + 1]):
            at += 1
        elif at < 0 or not matches(state, shown[at]):
            return False
    return at == len(shown) - 1


def arrive(ctx, browser, state, what):
    ctx.check(browser.until(lambda: any(g and matches(g, state) for g in browser.received)),
              "{} does not arrive within {} s: {}", what, WAIT, state)


def follow(ctx, browser, start, shown):
    """Every rendered state arrives, in order; repeats are allowed."""
    position = start

    def progress():
        # index of the next state still missing
        nonlocal at
        got = browser.received[start:]
        i = 0
        at = 0
        while i < len(got) and at < len(shown):
            if got[i] and matches(got[i], shown[at]):
                at += 1
            elif not (got[i] and any(matches(got[i], s) for s in shown[max(0, at - 1):at])
                      or old(got[i])):
                return True  # unexpected
            i += 1
        return at == len(shown)

    before = browser.received[:start]

    def old(state):
        return not state or state in before

    at = 0
    arrived = browser.until(progress)
    got = browser.received[position:]
    ctx.count("states_delivered", at)
    if at < len(shown):
        ctx.fail(f"state {at} of {len(shown)} does not reach a browser within {WAIT} s or "
                 f"comes out of order ({'got' if arrived else 'waited, got'} {len(got)} "
                 f"states): expected {shown[at]}, last received "
                 f"{got[-1] if got else 'nothing'}")


# --------------------------------------------------------------------- C26
NS = "{http://www.w3.org/2000/svg}"


def local(tag):
    return tag.rsplit("}", 1)[-1]


def classes(element):
    return (element.get("class") or "").split()


class Page:
    def __init__(self, svg_text):
        self.root = ElementTree.fromstring(svg_text)
        self.elements = list(self.root.iter())
        self.parents = {c: p for p in self.elements for c in p}
        self.by_id = {}
        self.twice = []
        for element in self.elements:
            ident = element.get("id")
            if ident is not None:
                if ident in self.by_id:
                    self.twice.append(ident)
                self.by_id[ident] = element

    def of_class(self, name, below=None):
        return [e for e in (below if below is not None else self.root).iter()
                if name in classes(e)]

    def corner(self, element):
        """Absolute x and y of nested svg elements."""
        x = y = 0.0
        walk = element
        while walk is not None and walk is not self.root:
            if local(walk.tag) in ("svg", "rect"):
                x += float(walk.get("x") or 0)
                y += float(walk.get("y") or 0)
            walk = self.parents.get(walk)
        return x, y

    def box(self, element):
        """Absolute x, y, width, height of nested svg elements."""
        return (*self.corner(element), float(element.get("width") or 0),
                float(element.get("height") or 0))

    def center(self, element):
        x, y, width, height = self.box(element)
        return x + width / 2, y + height / 2

    def size(self, element, name):
        """Width or height as drawn; a share of what surrounds it if not given."""
        text = element.get(name)
        if text is None and local(element.tag) == "svg":
            text = "100%"
        if text is None or not text.strip().endswith("%"):
            return float((text or "0").strip().removesuffix("px"))
        outer = self.parents.get(element)
        while outer is not self.root and local(outer.tag) != "svg":
            outer = self.parents.get(outer)
        whole = (float(self.root.get("viewBox").split()[2 if name == "width" else 3])
                 if outer is self.root else self.size(outer, name))
        return whole * float(text.strip()[:-1]) / 100

    def area(self, element):
        """Left, top, right, bottom of an element."""
        x, y = self.corner(element)
        return x, y, x + self.size(element, "width"), y + self.size(element, "height")

    def seen(self, element):
        """What the frames around an element leave of it: they clip."""
        left, top, right, bottom = self.area(element)
        outer = self.parents.get(element)
        while outer is not None and outer is not self.root:
            if local(outer.tag) == "svg":
                frame = self.area(outer)
                left, top = max(left, frame[0]), max(top, frame[1])
                right, bottom = min(right, frame[2]), min(bottom, frame[3])
            outer = self.parents.get(outer)
        return left, top, right, bottom


def check_page(ctx, svg_text, n, hole, board):
    import math

    where = f"page for {n} players, {hole} hole cards, {board} board cards"
    try:
        page = Page(svg_text)
    except ElementTree.ParseError as exc:
        ctx.fail(f"{where}: no well formed drawing: {exc}")
    ctx.check(not page.twice, "{}: ids used twice: {}", where, page.twice[:5])

    def need(ident, tag=None, *names):
        element = page.by_id.get(ident)
        ctx.check(element is not None, "{}: no element {}", where, ident)
        ctx.check(tag is None or local(element.tag) == tag, "{}: {} is a {}", where, ident,
                  element.tag)
        for name in names:
            ctx.check(name in classes(element), "{}: {} is of class {}", where, ident,
                      element.get("class"))
        ctx.count("elements_found")
        return element

    def inside(element, outer, what):
        walk = element
        while walk is not None and walk is not outer:
            walk = page.parents.get(walk)
        ctx.check(walk is outer, "{}: {} is not part of its seat", where, what)

    def check_card(card, what, fill):
        backs, texts = page.of_class("card-background", card), page.of_class("card-text", card)
        ctx.check(len(backs) == 1 and len(texts) == 1, "{}: {} has {} faces and {} texts",
                  where, what, len(backs), len(texts))
        ctx.check(backs[0].get("fill") == f"url(#{fill})", "{}: {} is drawn as {} instead of "
                  "{}", where, what, backs[0].get("fill"), fill)
        ctx.check(not (texts[0].text or "").strip(), "{}: {} shows {!r}", where, what,
                  texts[0].text)

    patterns = {e.get("id") for e in page.elements if local(e.tag) == "pattern"}
    for name in ("card-back", "card-blank", "card-club", "card-spade", "card-heart",
                 "card-diamond", "dealer"):
        ctx.check(name in patterns, "{}: no pattern {}", where, name)
    players = page.of_class("player")
    ctx.check(len(players) == n, "{}: {} seats drawn", where, len(players))
    ctx.check([p.get("id") for p in players] == [str(i) for i in range(n)],
              "{}: seats drawn are {}", where, [p.get("id") for p in players])
    ctx.check(len(page.of_class("player-background")) == n, "{}: {} seat backgrounds", where,
              len(page.of_class("player-background")))
    ctx.check(len(page.of_class("button-background")) == n, "{}: {} buttons", where,
              len(page.of_class("button-background")))
    seats, commits = [], []
    for i, player in enumerate(players):
        inside(need(f"chips-text-{i}", "text", "chips-text"), player, "chips text")
        inside(need(f"player-background-{i}", None, "player-background"), player, "background")
        for j in range(hole):
            held = need(f"card-{i}-{j}", "svg", "card")
            inside(held, player, "card")
            check_card(held, f"card {j} of seat {i}", "card-back")
        ctx.check(len(page.of_class("card-background", player)) == hole,
                  "{}: seat {} has {} cards", where, i,
                  len(page.of_class("card-background", player)))
        spots = [page.box(page.by_id[f"card-{i}-{j}"]) for j in range(hole)]
        for a, b in zip(spots, spots[1:]):
            ctx.check(abs(b[0] - a[0] - a[2]) < 1 and a[1] == b[1],
                      "{}: cards of seat {} lie at {}", where, i, spots)
        commit = need(f"street-commit-{i}")
        inside(need(f"street-commit-text-{i}", "text"), commit, "commitment")
        button = need(f"button-background-{i}", None, "button-background")
        inside(button, commit, "button")
        seats.append(page.center(player))
        commits.append(page.center(commit))
        x, y, width, height = page.box(player)
        for j, spot in enumerate(spots):
            ctx.check(x <= spot[0] and spot[0] + spot[2] <= x + width + 0.01,
                      "{}: card {} of seat {} sticks out", where, j, i)
    community = need("community")
    inside(need("pot-text", "text"), community, "pot")
    for k in range(board + 1):
        held = need(f"card-community-{k}", "svg", "card")
        inside(held, community, "board card")
        check_card(held, f"board card {k}", "card-back" if k == 0 else "card-blank")
    ctx.check(len(page.of_class("card-background", community)) == board + 1,
              "{}: {} board cards", where, len(page.of_class("card-background", community)))
    spots = [page.box(page.by_id[f"card-community-{k}"]) for k in range(board + 1)]
    for a, b in zip(spots, spots[1:]):
        ctx.check(b[0] >= a[0] + a[2] - 0.01, "{}: board cards overlap", where)
    # layout: seats go round the table, each commitment in front of its seat
    table = page.of_class("table")
    ctx.check(len(table) == 1, "{}: {} tables", where, len(table))
    cx, cy = page.center(table[0])
    for points, what in ((seats, "seats"), (commits, "commitments")):
        ctx.check(len(set(points)) == n, "{}: {} on top of each other: {}", where, what, points)
        angles = [math.atan2(y - cy, x - cx) for x, y in points]
        turns = [(b - a) % (2 * math.pi) for a, b in zip(angles, angles[1:] + angles[:1])]
        ctx.check(abs(sum(turns) - 2 * math.pi) < 0.01, "{}: {} do not go once round the "
                  "table: {}", where, what, points)
        ctx.check(abs(points[0][0] - cx) <= 1 and points[0][1] > cy,
                  "{}: first of the {} is at {}, table centre {}", where, what, points[0],
                  (cx, cy))
        if n % 2 == 0:
            for a, b in zip(points, points[n // 2:]):
                ctx.check(abs(a[0] + b[0] - 2 * cx) <= 3 and abs(a[1] + b[1] - 2 * cy) <= 3,
                          "{}: {} are not laid out evenly: {} and {}", where, what, a, b)
        for i in range(1, n):
            a, b = points[i], points[n - i]
            ctx.check(abs(a[0] + b[0] - 2 * cx) <= 3 and abs(a[1] - b[1]) <= 3,
                      "{}: {} are not symmetric: {} and {}", where, what, a, b)
    for i in range(n):
        a, b = seats[i], commits[i]
        side = (math.atan2(a[1] - cy, a[0] - cx) - math.atan2(b[1] - cy, b[0] - cx)
                + math.pi) % (2 * math.pi) - math.pi
        ctx.check(abs(side) < 0.75, "{}: commitment {} is not in front of its seat {}", where,
                  b, a)
        ctx.check(math.hypot(b[0] - cx, b[1] - cy) < math.hypot(a[0] - cx, a[1] - cy),
                  "{}: commitment {} is behind its seat {}", where, b, a)
    check_layout(ctx, page, where, n, hole, board, need)
    check_texts(ctx, page, where, need, [f"chips-text-{i}" for i in range(n)]
                + [f"street-commit-text-{i}" for i in range(n)] + ["pot-text"], (hole, board))
    check_symbols(ctx, page)
    ctx.count("pages_checked")


def check_texts(ctx, page, where, need, amounts, cards):
    """Amounts up to 1,000 and ranks stand inside of their boxes, with nothing over them."""
    for element in page.elements:
        hidden = (element.get("display"), element.get("visibility"), element.get("opacity"))
        ctx.check(hidden[0] != "none" and hidden[1] not in ("hidden", "collapse")
                  and hidden[2] not in ("0", "0.0", "0%"), "{}: {} is hidden", where,
                  element.attrib)

    def spot(text, width, what, most):
        """Left, top, right, bottom of a written text, from the corner of its frame."""
        frame = page.parents.get(text)
        while local(frame.tag) != "svg":
            frame = page.parents.get(frame)
        room = page.size(frame, "width"), page.size(frame, "height")
        at = []
        for name, whole in zip("xy", room):
            value = (text.get(name) or "0").strip()
            at.append(whole * float(value[:-1]) / 100 if value.endswith("%")
                      else float(value.removesuffix("px")))
        size = float((text.get("font-size") or "16").removesuffix("px"))
        ctx.check(size >= 8, "{}: {} is too small to be read: {}", where, what, size)
        wide = width * size * most
        left = at[0] - {"middle": wide / 2, "end": wide}.get(text.get("text-anchor"), 0)
        drawn = left, at[1] - 0.75 * size, left + wide, at[1]
        ctx.check(drawn[0] >= -1 and drawn[1] >= -1 and drawn[2] <= room[0] + 1
                  and drawn[3] <= room[1] + 1, "{}: {} stands at {} of a box of {}", where,
                  what, drawn, room)
        ctx.count("texts_placed")
        return frame, drawn

    for ident in amounts:
        frame, drawn = spot(need(ident, "text"), 0.56, ident, 4)
        for other in frame.iter():
            if local(other.tag) == "svg" and other is not frame:
                box = [page.area(other)[k] - page.area(frame)[k % 2] for k in range(4)]
                ctx.check(min(box[2], drawn[2]) - max(box[0], drawn[0]) < 1
                          or min(box[3], drawn[3]) - max(box[1], drawn[1]) < 1,
                          "{}: {} is written over {}", where, ident, other.attrib)
    for text in page.of_class("card-text"):
        spot(text, 0.67, "the rank of a card", 2)


def check_layout(ctx, page, where, n, hole, board, need):
    """Nothing is cut off, nothing that matters lies below something else."""
    def whole(element, what):
        drawn, seen = page.area(element), page.seen(element)
        ctx.check(all(abs(a - b) < 0.01 for a, b in zip(drawn, seen)),
                  "{}: only {} of {} at {} is to be seen", where, seen, what, drawn)
        ctx.check(drawn[2] - drawn[0] >= 1 and drawn[3] - drawn[1] >= 1,
                  "{}: {} has no size: {}", where, what, drawn)
        ctx.count("areas_measured")
        return drawn

    def holder(ident):
        """The box around a text, which is as wide as the text has room."""
        outer = page.parents.get(need(ident, "text"))
        while local(outer.tag) != "svg":
            outer = page.parents.get(outer)
        return outer

    def meet(a, b):
        return min(a[2], b[2]) - max(a[0], b[0]) > 0.5 and min(a[3], b[3]) - max(a[1], b[1]) > 0.5

    def within(a, b):
        return (a[0] >= b[0] - 0.01 and a[1] >= b[1] - 0.01 and a[2] <= b[2] + 0.01
                and a[3] <= b[3] + 0.01)

    def middle(spots):
        return (min(s[0] for s in spots) + max(s[2] for s in spots)) / 2

    card_size = None
    seats, bets, things = [], [], []
    for i in range(n):
        seat = page.area(page.by_id[str(i)])
        frame = whole(need(f"player-background-{i}"), f"the frame of seat {i}")
        cards = [whole(need(f"card-{i}-{j}"), f"card {j} of seat {i}") for j in range(hole)]
        stack = whole(holder(f"chips-text-{i}"), f"the stack of seat {i}")
        for spot in cards + [stack]:
            ctx.check(within(spot, frame), "{}: {} of seat {} is not in its frame {}", where,
                      spot, i, frame)
        for spots, what in ((cards, "cards"), ([stack], "stack"), ([frame], "frame")):
            ctx.check(abs(middle(spots) - (seat[0] + seat[2]) / 2) < 1,
                      "{}: {} of seat {} are not in its middle {}: {}", where, what, i, seat,
                      spots)
        bet = whole(holder(f"street-commit-text-{i}"), f"the bet of seat {i}")
        button = whole(need(f"button-background-{i}"), f"the button of seat {i}")
        ctx.check(within(button, bet), "{}: button {} of seat {} is not next to its bet {}",
                  where, button, i, bet)
        for spot in cards:
            card_size = card_size or (spot[2] - spot[0], spot[3] - spot[1])
            ctx.check((spot[2] - spot[0], spot[3] - spot[1]) == card_size,
                      "{}: cards of different sizes: {} and {}", where, spot, card_size)
            ctx.check(not meet(spot, stack), "{}: cards over the stack of seat {}", where, i)
        for spot, what in ((stack, "stack"), (bet, "bet")):
            ctx.check(spot[2] - spot[0] >= 50, "{}: no room for the {} of seat {}: {}", where,
                      what, i, spot)
        seats.append(frame)
        bets.append(bet)
        things.append(cards + [stack])
    table = page.area(page.of_class("table")[0])
    view = [float(part) for part in page.root.get("viewBox").split()]
    ctx.check(within(table, (view[0], view[1], view[0] + view[2], view[1] + view[3])),
              "{}: the table {} is not in the picture {}", where, table, view)
    ctx.check(abs(sum(table[0::2]) - 2 * view[0] - view[2]) < 1
              and abs(sum(table[1::2]) - 2 * view[1] - view[3]) < 1,
              "{}: the table {} is not in the middle of the picture {}", where, table, view)
    for spot in seats + bets:
        ctx.check(spot[1] >= view[1] and spot[3] <= view[1] + view[3],
                  "{}: {} is not in the picture {}", where, spot, view)
    shared = [whole(need(f"card-community-{k}"), f"board card {k}") for k in range(board + 1)]
    pot = whole(holder("pot-text"), "the pot")
    ctx.check(pot[2] - pot[0] >= 50, "{}: no room for the pot: {}", where, pot)
    for spot in shared:
        ctx.check((spot[2] - spot[0], spot[3] - spot[1]) == card_size,
                  "{}: cards of different sizes: {} and {}", where, spot, card_size)
        ctx.check(not meet(spot, pot), "{}: board cards over the pot", where)
    # the deck lies a bit away from the board
    ctx.check(not board or shared[1][0] - shared[0][2] > 1, "{}: deck and board touch: {}",
              where, shared)
    if board <= 12:
        for spot in shared + [pot]:
            ctx.check(within(spot, table), "{}: {} is not on the table {}", where, spot, table)
    for spots, what in ((shared, "board"), ([pot], "pot")):
        ctx.check(abs(middle(spots) - (table[0] + table[2]) / 2) <= 10,
                  "{}: {} is not in the middle of the table {}: {}", where, what, table, spots)
    if n > 10 or hole > 4 or board > 8:
        return
    # everything fits: nothing lies on anything else
    for i in range(n):
        for j in range(i):
            ctx.check(not meet(seats[i], seats[j]), "{}: seats {} and {} overlap", where, j, i)
            ctx.check(not meet(bets[i], bets[j]), "{}: bets {} and {} overlap", where, j, i)
        for j in range(n):
            for spot in things[j]:
                ctx.check(not meet(bets[i], spot), "{}: bet of seat {} lies on {} of seat {}",
                          where, i, spot, j)
        for spot in shared + [pot]:
            ctx.check(not meet(bets[i], spot), "{}: bet of seat {} lies on the board", where, i)
            ctx.check(not meet(seats[i], spot), "{}: seat {} lies on the board", where, i)
        ctx.check(within(bets[i], table), "{}: bet of seat {} is off the table", where, i)
    ctx.count("pages_without_overlap")


def fetch(host, port, path):
    with urllib.request.urlopen(f"http://{host}:{port}{path}", timeout=WAIT) as answer:
        return answer.status, answer.read().decode("utf8"), answer.headers


def svg_of(html):
    start, end = html.find("<svg"), html.rfind("</svg>")
    if start < 0 or end < 0:
        raise Violation("the page has no drawing")
    # the drawing embeds an icon: take the outermost one
    return html[start:end + 6]


def check_styles(ctx, css, page, link):
    """No rule of the style sheet hides something of the drawing."""
    names = {"svg", "text", "rect", "*"}
    for element in page.elements:
        names.update("." + name for name in classes(element))
        names.add("#" + str(element.get("id")))
    for selectors, rules in re.findall(r"([^{}]+)\{([^{}]*)\}", re.sub(r"(?s)/\*.*?\*/", "", css)):
        ctx.count("style_rules_read")
        if re.search(r"display\s*:\s*none|visibility\s*:\s*(hidden|collapse)"
                     r"|(^|[;\s])opacity\s*:\s*0(\.0*|%)?\s*(;|!|$)"
                     r"|(^|[;\s])(width|height)\s*:\s*0[a-z%]*\s*(;|!|$)", rules):
            for selector in selectors.split(","):
                last = selector.split()[-1] if selector.split() else ""
                ctx.check(last not in names, "{} hides {}", link, selector.strip())


def page(rng, index, ctx):
    n, hole, board = rng.randint(2, 10), rng.randint(1, 6), rng.randint(0, 8)
    if rng.random() < 0.1:
        n, hole = rng.randint(11, 23), rng.randint(1, 12)
    ctx.trace = {"players": n, "hole": hole, "board": board}
    served = index % (480 if ctx.quick else 400) < 16
    if not served:
        try:
            text = str(render.graphic._SVGPoker(n, hole, board).base_svg)
        except (AttributeError, TypeError):
            # drawn some other way: only the server tells
            served = index % 10 == 0
            if not served:
                return
    if not served:
        check_page(ctx, text, n, hole, board)
    else:
        viewer = start_viewer(ctx, n, hole, board)
        try:
            status, html, _ = fetch(viewer.host, viewer.port, "/")
            ctx.check(status == 200, "page answers {}", status)
            check_page(ctx, svg_of(html), n, hole, board)
            ctx.check("socket.io" in html, "the page does not load socket.io")
            for wanted in (".js", ".css"):
                links = [part.split('"')[0] for part in html.split('="')[1:]]
                links = [link for link in links if link.startswith("/static")
                         and link.endswith(wanted)]
                ctx.check(links, "the page loads no {} file", wanted)
                for link in links:
                    status, text, _ = fetch(viewer.host, viewer.port, link)
                    ctx.check(status == 200 and text, "{} answers {}", link, status)
                    if wanted == ".css":
                        check_styles(ctx, text, Page(svg_of(html)), link)
                    if wanted == ".js":
                        ctx.check("io(" in text, "{} does not connect to the server", link)
                    ctx.count("files_served")
            again = fetch(viewer.host, viewer.port, "/")[1]
            ctx.check(again == html, "the page changes from one visit to the next")
            ctx.count("pages_served")
        finally:
            stop_viewer(viewer)
    ctx.nontrivial(n, hole, board, served)
    ctx.evaluated()
    ctx.sample(dict(ctx.trace, served=served))


# --------------------------------------------------------------------- C27
SCRIPT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "dom.js")
_drawings, _pages = {}, {}


def tree(element):
    text = (element.text or "") if not list(element) else ""
    return [local(element.tag), dict(element.attrib), text, [tree(c) for c in element]]


def drawing_for(ctx, n, hole, board):
    """(drawing, script) as the server delivers them."""
    key = n, hole, board
    if key not in _drawings:
        viewer = start_viewer(ctx, n, hole, board)
        try:
            html = fetch(viewer.host, viewer.port, "/")[1]
            links = [part.split('"')[0] for part in html.split('="')[1:]]
            links = [link for link in links if link.startswith("/static")
                     and link.endswith(".js")]
            script = "\n".join(fetch(viewer.host, viewer.port, link)[1] for link in links)
        finally:
            stop_viewer(viewer)
        _drawings[key] = tree(ElementTree.fromstring(svg_of(html))), script
        _pages[key] = Page(svg_of(html))
    return _drawings[key]


class Recorder(drive.Monitor):
    def __init__(self):
        self.shown = []

    def on_reset(self, obs):
        self.shown.append(picture(self.game.dealer, obs, None))

    def on_step(self, step):
        self.shown.append(picture(self.game.dealer, step.after, step))


SUIT_LOOK = {"\u2663": ("card-club", "black"), "\u2660": ("card-spade", "black"),
             "\u2665": ("card-heart", "red"), "\u2666": ("card-diamond", "red")}


def check_symbols(ctx, page):
    """The faces named in SUIT_LOOK show the symbol of their suit, in its colour."""
    for symbol, (name, color) in SUIT_LOOK.items():
        face = page.by_id.get(name)
        ctx.check(face is not None, "the page has no face {}", name)
        outlines = [e for e in face.iter() if local(e.tag) == "path" and e.get("d")]
        for element in outlines:
            try:
                shown = shapes.suit(element.get("d"))
            except shapes.Unknown:
                ctx.count("symbols_not_read")
                continue
            ctx.check(shown == symbol, "face {} shows {}", name, shown)
            fill = (element.get("fill") or "").strip().lower()
            if fill in ("red", "black", "#000", "#000000", "#f00", "#ff0000", "white", "none",
                        "transparent", "#fff", "#ffffff"):
                good = {"red": ("red", "#f00", "#ff0000"), "black": ("black", "#000", "#000000")}
                ctx.check(fill in good[color], "face {} is drawn in {}", name, fill)
            frame = [float(face.get(k)) for k in ("width", "height")]
            every = [p for points in shapes.outline(element.get("d")) for p in points]
            ctx.check(all(-0.5 <= x <= frame[0] + 0.5 and -0.5 <= y <= frame[1] + 0.5
                          for x, y in every), "face {}: the symbol is cut off: {}", name, every)
            ctx.count("symbols_read")


def script(rng, index, ctx):
    config = broad_config(rng, index)
    n, hole, board = config["num_players"], config["num_hole_cards"], board_size(config)
    drawing, source = drawing_for(ctx, n, hole, board)
    check_symbols(ctx, _pages[n, hole, board])
    states = []
    for _ in range(3 if ctx.quick else 6):
        recorder = Recorder()
        game = drive.Game(ctx, rng, config, [recorder])
        game.session(3)
        for _ in range(20 if ctx.quick else 30):
            # other tables of the same size: every card and seat gets its turn
            size = len(recorder.shown)
            game.session(1)
            if len(recorder.shown) == size:
                break
        states += recorder.shown
    # states can be skipped, repeated, and the empty state of a new server may come
    feed = []
    for state in states:
        if rng.random() < 0.85:
            feed.append(state)
        if rng.random() < 0.05 and feed:
            feed.append(rng.choice(feed))
        if rng.random() < 0.03:
            feed.append({})
    ctx.trace = {"config": config}
    job = json.dumps({"drawing": drawing, "script": source, "states": feed})
    try:
        done = subprocess.run(["node", SCRIPT], input=job.encode("utf8"), timeout=120,
                              stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    except subprocess.TimeoutExpired:
        raise Inconclusive("node took too long")
    if done.returncode != 0:
        ctx.fail("the page's script fails: " + done.stderr.decode("utf8")[-1500:])
    views = json.loads(done.stdout.decode("utf8"))
    ctx.check(len(views) == len(feed), "{} views of {} states", len(views), len(feed))
    for number, (view, state) in enumerate(zip(views, feed)):
        if "error" in view:
            ctx.fail(f"state {number} {state}: script fails with {view['error']}")
        check_view(ctx, view, state, n, hole, board)
        ctx.count("states_shown")
        ctx.nontrivial(state)
    ctx.evaluated()
    ctx.sample({"config": config, "states": len(feed), "first": feed[0] if feed else None})


def check_view(ctx, view, state, n, hole, board):
    def same(name, got, want):
        ctx.check(got == want, "page shows {} as {} instead of {} for {}", name, got, want,
                  state)

    def card_look(text):
        look, color = SUIT_LOOK[text[1]]
        return {"text": "10" if text[0] == "T" else text[0], "fill": f"url(#{look})",
                "color": color, "stroke": color}

    def check_card(name, got, want, blank):
        if want is None:
            same(name, (got["text"].strip(), got["fill"]), ("", f"url(#{blank})"))
            ctx.count("cards_covered")
        else:
            same(name, got, card_look(want))
            ctx.count("cards_shown")

    if not state:
        state = {"stacks": [0] * n, "street_commits": None, "active": [False] * n,
                 "hole_cards": [[]] * n, "community_cards": [], "pot": 0, "button": None,
                 "action": -1}
    for i in range(n):
        same(f"stack of seat {i}", view["stacks"][i].strip(), str(state["stacks"][i]))
        if state["street_commits"] is not None:
            same(f"commitment of seat {i}", view["commits"][i].strip(),
                 str(state["street_commits"][i]))
        for j in range(hole):
            known = state["active"][i] and j < len(state["hole_cards"][i])
            check_card(f"card {j} of seat {i}", view["cards"][i][j],
                       state["hole_cards"][i][j] if known else None, "card-back")
        same(f"button at seat {i}", view["buttons"][i],
             "url(#dealer)" if i == state["button"] else "transparent")
        same(f"background of seat {i}", view["backgrounds"][i],
             "#000000" if i == state["action"] else "#ffffff")
    for k in range(board):
        known = k < len(state["community_cards"])
        check_card(f"board card {k}", view["board"][k],
                   state["community_cards"][k] if known else None, "card-blank")
    same("all", view["hidden"], [])
    same("deck", view["deck"]["fill"], "url(#card-back)")
    same("pot", view["pot"].strip(), str(state["pot"]))


# --------------------------------------------------------------------- C28
def listening(host, port):
    try:
        with socket.create_connection((host, port), timeout=2):
            return True
    except OSError:
        return False


def no_server(ctx, children, host, port, what):
    alive = [process for process in children if process.is_alive()]
    ctx.check(not alive, "{}: the server process is still running: {}", what, alive)
    for number in (port, port + 1):
        end = time.time() + 10
        while listening(host, number) and time.time() < end:
            time.sleep(0.05)
        ctx.check(not listening(host, number), "{}: port {} still answers", what, number)


def lifecycle(rng, index, ctx):
    kind = ["taken", "close", "two", "busy", "died", "taken", "two", "any port",
            "orphaned", "unequipped", "many", "any port", "ended"][index % 13]
    n, hole, board = rng.randint(2, 10), rng.randint(1, 4), rng.randint(0, 5)
    host = rng.choice(["127.0.0.1", "127.0.0.1", f"127.0.0.{rng.randint(2, 200)}"])
    before = {c.pid for c in multiprocessing.active_children()}
    if kind == "any port":
        # one of the ports outgoing connections use, so others may take it at any time
        n, hole, board, host = 2, 2, 3, "127.0.0.1"
    ctx.trace = {"kind": kind, "host": host, "table": [n, hole, board]}
    if kind == "busy":
        busy(rng, ctx, n, hole, board, before)
    elif kind in ("orphaned", "ended"):
        orphaned(rng, ctx, n, hole, board, host, kind == "ended")
    elif kind == "unequipped":
        unequipped(rng, ctx, n, hole, board)
    elif kind == "many":
        many(rng, ctx)
    else:
        makers = {"any port": lambda host, _: any_port(ctx, host),
                  "close": lambda host, port: behind_proxy(ctx, n, hole, board, host, port)}
        viewer = start_viewer(ctx, n, hole, board, host, makers.get(kind))
        try:
            where = f"viewer on {host}:{viewer.port}"
            status, html, _ = fetch(host, viewer.port, "/")
            ctx.check(status == 200, "{} answers {}", where, status)
            ctx.check(viewer.host == host, "{}: host is told as {}", where, viewer.host)
            ctx.check(f"{host}:{viewer.port}" in viewer.announced, "{} is announced as {!r}",
                      where, viewer.announced)
            if host != "127.0.0.1":
                for number in (viewer.port, viewer.port + 1):
                    ctx.check(not listening("127.0.0.1", number),
                              "{} also answers on 127.0.0.1:{}", where, number)
                ctx.count("other_hosts")
            if kind == "two":
                second = start_viewer(ctx, n, hole, board)
                try:
                    side_by_side(rng, ctx, [viewer, second], n, hole, board)
                finally:
                    stop_viewer(second)
                # the first one does not go down with the second
                ctx.check(fetch(host, viewer.port, "/")[0] == 200,
                          "{} gone after another viewer was closed", where)
            elif kind == "taken":
                taken(rng, ctx, viewer, n, hole, board)
            elif kind == "died":
                for process in viewer.children:
                    process.kill()
                    process.join()
                ctx.count("servers_killed")
        finally:
            started = time.time()
            stop_viewer(viewer)
        no_server(ctx, viewer.children, host, viewer.port, f"{where} after close()")
        ctx.most("seconds_to_close", round(time.time() - started, 2))
        viewer.close()
        viewer.close()
        ctx.count("closed_again", 2)
        if kind != "any port":
            # both ports can be used again
            again = None
            for _ in range(2):
                try:
                    with contextlib.redirect_stdout(io.StringIO()):
                        again = render.GraphicViewer(n, hole, board, host=host, port=viewer.port)
                    break
                except error.RenderInitializationError:
                    ctx.count("slow_starts")
            ctx.check(again is not None, "{}: its port cannot be used again", where)
            _open.append(again)
            ctx.check(fetch(host, viewer.port, "/")[1] == html, "a viewer started again on port "
                      "{} shows another page", viewer.port)
            children = multiprocessing.active_children()
            stop_viewer(again)
            no_server(ctx, children, host, viewer.port, "a viewer started again, after close()")
            ctx.count("ports_reused")
    left = {c.pid for c in multiprocessing.active_children()} - before
    ctx.check(not left, "processes left behind: {}", left)
    ctx.count("lifecycles_" + kind)
    ctx.evaluated()
    ctx.nontrivial(kind, host, n, hole, board)
    ctx.sample(dict(ctx.trace))


def some_state(rng, n, hole, board, pot):
    deck = clubs.Deck(4, 13)
    return {
        "action": rng.randrange(n), "active": [True] * n, "all_in": [False] * n,
        "community_cards": deck.draw(board), "button": rng.randrange(n), "done": False,
        "hole_cards": [deck.draw(hole) for _ in range(n)], "pot": pot,
        "payouts": [0] * n, "prev_action": (0, 1, False),
        "street_commits": [rng.randint(0, 9) for _ in range(n)],
        "stacks": [rng.randint(0, 99) for _ in range(n)],
    }


def refused(ctx, n, hole, board, host, port, what, hindered=lambda: True):
    """A viewer that cannot start says so, soon, and leaves nothing behind."""
    before = {c.pid for c in multiprocessing.active_children()}
    outcome = []

    def attempt():
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                outcome.append(render.GraphicViewer(n, hole, board, host=host, port=port))
        except BaseException as exc:
            outcome.append(exc)

    thread = threading.Thread(target=attempt, daemon=True)
    thread.start()
    thread.join(60)
    ctx.check(outcome, "{}: GraphicViewer does not come back", what)
    if isinstance(outcome[0], render.GraphicViewer):
        _open.append(outcome[0])
        if not hindered():
            stop_viewer(outcome[0])
            return
        ctx.fail(f"{what}: a viewer started all the same")
    ctx.check(isinstance(outcome[0], error.RenderInitializationError), "{}: fails with {!r}",
              what, outcome[0])
    left = [c for c in multiprocessing.active_children() if c.pid not in before]
    ctx.check(not left, "{}: server processes left after a failed start: {}", what, left)


def taken(rng, ctx, viewer, n, hole, board):
    """Viewers whose ports are those of an open one do not start, nor disturb it."""
    html = fetch(viewer.host, viewer.port, "/")[1]
    browser = Browser(viewer.host, viewer.port)
    try:
        offsets = [0, 1, -1]
        rng.shuffle(offsets)
        for number, offset in enumerate(offsets):
            refused(ctx, rng.randint(2, 10), hole, board, viewer.host, viewer.port + offset,
                    f"port {offset:+} from that of an open viewer")
            ctx.count("taken_ports_refused")
            ctx.check(fetch(viewer.host, viewer.port, "/")[1] == html,
                      "an open viewer serves another page after a failed start")
            mark = 1000 + number
            viewer.render(some_state(rng, n, hole, board, mark))
            ctx.check(browser.until(lambda: any(g and g["pot"] == mark
                                                for g in browser.received)),
                      "an open viewer stops showing states after a failed start")
        table_goes_on(rng, ctx, viewer, n, hole, board)
    finally:
        browser.close()


def table_goes_on(rng, ctx, viewer, n, hole, board):
    """A table whose rendering was refused is as it was and can be rendered."""
    dealer = clubs.Dealer(n, 2, 0, 1, "inf", "inf", 4, 13, hole, [0, board], 1, 0, 9)
    dealer.reset()
    before = str(dealer), [str(c) for c in dealer.deck.cards], dealer.action
    for _ in range(2):
        try:
            dealer.render("human", host=viewer.host, port=viewer.port)
        except error.RenderInitializationError:
            pass
        else:
            ctx.fail("a table is rendered on the ports of another one")
    now = str(dealer), [str(c) for c in dealer.deck.cards], dealer.action
    ctx.check(now == before, "a refused rendering changed the table from {} to {}", before, now)
    said = io.StringIO()
    with contextlib.redirect_stdout(said):
        dealer.render("ascii")
    ctx.check(said.getvalue().strip() == str(dealer).strip(),
              "after a refused rendering the table is rendered as {!r}", said.getvalue())
    dealer.step(1)
    ctx.count("renderings_refused", 2)


def any_port(ctx, host):
    """A viewer which looks for a port itself, half of their neighbours are in use."""
    crowd = subprocess.Popen([sys.executable, "-c", CROWD, host], stdin=subprocess.PIPE,
                             stdout=subprocess.PIPE)
    try:
        ctx.most("ports_in_use", int(crowd.stdout.readline()))
        start = time.time()
        return render.GraphicViewer(2, 2, 3, host=host)
    except error.RenderInitializationError as exc:
        # a server too slow to start is given up after ten seconds
        ctx.check(time.time() - start > 5, "a viewer that may use any port gives up: {}", exc)
        raise
    finally:
        crowd.kill()
        crowd.wait()


def behind_proxy(ctx, n, hole, board, host, port):
    """A viewer of a program that is told to use a proxy, which is out of reach now."""
    before = dict(os.environ)
    for name in ("no_proxy", "NO_PROXY"):
        os.environ.pop(name, None)
    os.environ.update(dict.fromkeys(["http_proxy", "HTTP_PROXY"], f"http://{host}:9"))
    try:
        ctx.count("viewers_behind_proxies")
        return render.GraphicViewer(n, hole, board, host=host, port=port)
    finally:
        for name in ("http_proxy", "HTTP_PROXY"):
            os.environ.pop(name)
        os.environ.update(before)


CROWD = """
import random, resource, socket, sys
try:
    least, most = map(int, open("/proc/sys/net/ipv4/ip_local_port_range").read().split())
except OSError:
    least, most = 32768, 60999
room = resource.getrlimit(resource.RLIMIT_NOFILE)[0] - 50
kept = []
for port in random.sample(range(least, most, 2), min(room, (most - least) // 4)):
    sock = socket.socket()
    try:
        sock.bind((sys.argv[1], port))
        kept.append(sock)
    except OSError:
        sock.close()
print(len(kept), flush=True)
sys.stdin.read()
"""


def side_by_side(rng, ctx, viewers, n, hole, board):
    """States of one table do not show up on another."""
    for viewer in viewers:
        if not hasattr(viewer, "series"):
            viewer.series = 1 + max([0] + [getattr(v, "series", 0) for v in viewers])
    browsers = [Browser(v.host, v.port) for v in viewers]
    try:
        for _ in range(4):
            for which, viewer in enumerate(viewers):
                mark = 1000 * viewer.series + rng.randint(1, 900)
                viewer.render(some_state(rng, n, hole, board, mark))
                browser = browsers[which]
                ctx.check(browser.until(lambda: any(g and g["pot"] == mark
                                                    for g in browser.received)),
                          "state of table {} does not arrive", which)
        for which, browser in enumerate(browsers):
            alien = [g["pot"] for g in browser.received
                     if g and g["pot"] // 1000 != viewers[which].series]
            ctx.check(not alien, "table {} is shown states of another one: {}", which, alien)
        ctx.count("table_pairs", len(viewers) // 2)
    finally:
        for browser in browsers:
            browser.close()


def many(rng, ctx):
    """Several viewers open at once, closed one after the other in any order."""
    hosts = ["127.0.0.1", f"127.0.0.{rng.randint(2, 200)}"]
    n, hole, board = rng.randint(2, 6), rng.randint(1, 3), rng.randint(0, 5)
    viewers = []
    try:
        for _ in range(rng.randint(4, 6)):
            viewers.append(start_viewer(ctx, n, hole, board, rng.choice(hosts)))
        ctx.most("viewers_at_once", len(viewers))
        side_by_side(rng, ctx, viewers, n, hole, board)
        rng.shuffle(viewers)
        while viewers:
            viewer = viewers.pop()
            stop_viewer(viewer)
            no_server(ctx, viewer.children, viewer.host, viewer.port,
                      f"one of several viewers, on {viewer.host}:{viewer.port}, after close()")
            for other in viewers:
                ctx.check(fetch(other.host, other.port, "/")[0] == 200,
                          "viewer on {}:{} gone after another one was closed", other.host,
                          other.port)
            if len(viewers) > 1 and rng.random() < 0.5:
                side_by_side(rng, ctx, viewers, n, hole, board)
    finally:
        for viewer in viewers:
            stop_viewer(viewer)


PROGRAM = """
import multiprocessing, sys, time
from clubs import render
n, hole, board, host, ports = eval(sys.argv[1])
viewers = [render.GraphicViewer(n, hole, board, host=host, port=port) for port in ports]
if sys.argv[2] == "play":
    for viewer in viewers:
        viewer.render({"action": 0, "active": [True] * n, "all_in": [False] * n,
                       "community_cards": [], "button": 0, "done": False,
                       "hole_cards": [[]] * n, "pot": 7, "payouts": [0] * n,
                       "prev_action": None, "street_commits": [0] * n, "stacks": [5] * n})
print([child.pid for child in multiprocessing.active_children()], flush=True)
if sys.argv[3] == "killed":
    time.sleep(1000)
elif sys.argv[3] == "fails":
    raise RuntimeError("the program fails")
elif sys.argv[3] == "gives up":
    sys.exit(7)
"""


def running(pid):
    try:
        with open(f"/proc/{pid}/stat") as stat:
            return stat.read().rpartition(")")[2].split()[0] not in "ZX"
    except OSError:
        return False


def orphaned(rng, ctx, n, hole, board, host, by_itself=False):
    """The program a viewer belongs to ends or is killed: its server goes as well."""
    ports = [free_pair(ctx, host) for _ in range(rng.choice([1, 1, 2]))]
    if by_itself:
        end = rng.choice(["is done", "fails", "gives up"])
        what = f"a program which {end}, without closing its viewer"
    else:
        how, end = rng.choice([signal.SIGKILL, signal.SIGTERM]), "killed"
        what = f"a program killed by {how.name}"
    ctx.trace["program"] = [ports, what]
    program = subprocess.Popen(
        [sys.executable, "-c", PROGRAM, repr((n, hole, board, host, ports)),
         rng.choice(["play", "wait"]), end], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    children = []
    try:
        line = b" "
        while line and not line.startswith(b"["):
            line = program.stdout.readline()
        if not line:
            raise Inconclusive(f"{what} did not start its viewers")
        children = eval(line)
        if by_itself:
            try:
                code = program.wait(60)
            except subprocess.TimeoutExpired:
                ctx.fail(f"{what}, does not end")
            expected = {"is done": 0, "fails": 1, "gives up": 7}[end]
            ctx.check(code == expected, "{}, ends with {} instead of {}", what, code, expected)
        else:
            ctx.check(len(children) == len(ports) and all(map(running, children)),
                      "{} of {} viewers have a server", len(children), len(ports))
            ctx.check(fetch(host, ports[0], "/")[0] == 200, "viewer of another program is gone")
            program.send_signal(how)
            program.wait()
        end = time.time() + 15
        while any(map(running, children)) and time.time() < end:
            time.sleep(0.05)
        ctx.check(not any(map(running, children)), "server of {} runs on", what)
        for port in ports:
            no_server(ctx, [], host, port, "after the end of " + what)
        ctx.count("programs_ended" if by_itself else "programs_killed")
    finally:
        program.kill()
        program.wait()
        for pid in filter(running, children):
            os.kill(pid, signal.SIGKILL)


WITHOUT = """
import multiprocessing, sys
sys.path[:0] = eval(sys.argv[1])
import clubs
n, hole, board = eval(sys.argv[2])
dealer = clubs.Dealer(n, 2, 0, 1, "inf", "inf", 4, 13, hole, [0, board], 1, 0, 9)
dealer.reset()
for attempt in range(2):
    before = str(dealer), dealer.stacks, dealer.pot, [str(c) for c in dealer.deck.cards]
    try:
        dealer.render("human")
    except clubs.error.MissingImportsError:
        pass
    else:
        sys.exit("a web table was opened")
    if before != (str(dealer), dealer.stacks, dealer.pot, [str(c) for c in dealer.deck.cards]):
        sys.exit("the table has changed")
    if multiprocessing.active_children():
        sys.exit("a process was left")
    dealer.step(1)
dealer.render("ascii")
print("fine")
"""


def unequipped(rng, ctx, n, hole, board):
    """Without the libraries of the web table all but the web table works."""
    hidden = rng.choice([["gevent"], ["flask"], ["flask_socketio"],
                         ["gevent", "flask", "flask_socketio"]])
    ctx.trace["hidden"] = hidden
    with tempfile.TemporaryDirectory(dir=os.environ["CLUBS_SCRATCH"]) as site:
        for found in site_packages():
            for entry in os.listdir(found):
                if entry.split(".")[0] not in hidden + ["clubs"]:
                    with contextlib.suppress(FileExistsError):
                        os.symlink(os.path.join(found, entry), os.path.join(site, entry))
        done = subprocess.run(
            [sys.executable, "-S", "-c", WITHOUT,
             repr([os.environ["CLUBS_REPO"], site]), repr((n, hole, board))],
            stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    said = (done.stderr or done.stdout).decode(errors="replace").strip()[-300:]
    ctx.check(done.returncode == 0 and b"fine" in done.stdout, "without {}: {}",
              " and ".join(hidden), said)
    ctx.count("programs_without_libraries")


def site_packages():
    return [p for p in sys.path if p.endswith("-packages") and os.path.isdir(p)]


@contextlib.contextmanager
def taken_at_the_last_moment(port):
    """Somebody takes the port after the viewer was called, before its server starts."""
    start = multiprocessing.process.BaseProcess.start
    blocker = socket.socket()
    done = []

    def late(process):
        if not done:
            blocker.bind(("127.0.0.1", port))
            done.append(port)
        return start(process)

    multiprocessing.process.BaseProcess.start = late
    try:
        yield done
    finally:
        multiprocessing.process.BaseProcess.start = start
        blocker.close()


def busy(rng, ctx, n, hole, board, before):
    """Somebody else uses the port: refused with the documented error, nothing left."""
    for _ in range(10):
        port = free_pair(ctx)
        blocker = socket.socket()
        try:
            blocker.bind(("127.0.0.1", port + 1))
            break
        except OSError:
            blocker.close()
    else:
        raise Inconclusive("no port to block")
    try:
        # bound but not listening: the server cannot open it, nobody answers there
        refused(ctx, n, hole, board, "127.0.0.1", port, "port in use")
        ctx.count("busy_ports_refused")
        ctx.check(not listening("127.0.0.1", port), "port {} answers after a failed start",
                  port)
    finally:
        blocker.close()
    offset = rng.randint(0, 1)
    with taken_at_the_last_moment(port + offset) as lost:
        refused(ctx, n, hole, board, "127.0.0.1", port, f"port {offset:+} gone meanwhile",
                lambda: lost)
    ctx.count("ports_lost_while_starting", len(lost))
    for number in (port, port + 1):
        ctx.check(not listening("127.0.0.1", number), "port {} answers after a failed start",
                  number)


__all__ = ["hands"]
