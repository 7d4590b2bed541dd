From 8915ae269acd44032776682ac46e147feb8bdf58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:43 +0000
Subject: [PATCH 01/37] fix: cap antes and blinds at the stack of the player
 posting them

A blind or ante larger than the stack drove the stack negative.
---
 clubs/poker/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index c18e6e3..96b057d 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -592,7 +592,7 @@ class Dealer:
         # roll list to action
         bets = bets[-self.action :] + bets[: -self.action]  # noqa: E203
         bets = [
-            (stack > 0) * active * bet
+            active * min(stack, bet)
             for stack, active, bet in zip(self.stacks, self.active, bets)
         ]
         if street_commits:
-- 
2.43.0


From 4fb838d6dd5e640ed588c86357c5e5e90ff139ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:43 +0000
Subject: [PATCH 02/37] fix: do not wait for all in players before ending a
 street

When every remaining player was all in but one of them had not yet acted on
the street, the hand ended without a showdown: the pot was refunded and the
chips of folded players vanished.
---
 clubs/poker/engine.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index 96b057d..26e1556 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -524,8 +524,13 @@ class Dealer:
         return win_probs
 
     def _all_agreed(self) -> bool:
-        # not all agreed if not all players had chance to act
-        if not all(self.street_option):
+        # not all agreed if not all players had chance to act,
+        # players without chips have nothing left to decide
+        had_option = [
+            option or stack == 0
+            for option, stack in zip(self.street_option, self.stacks)
+        ]
+        if not all(had_option):
             return False
         # all agreed if street commits equal to maximum street commit
         street_commit = [
-- 
2.43.0


From af0fc3a413ead9a3755d312cf8ef4c3861273be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:43 +0000
Subject: [PATCH 03/37] fix: give odd chips to the first winner of the pot
 after the button

The search for the first winner did not wrap around the table: depending on
the button it raised an IndexError or paid the wrong player. Odd chips of a
side pot could also go to a player not eligible for that pot.
---
 clubs/poker/engine.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index 26e1556..7887ee6 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -701,7 +701,6 @@ class Dealer:
         # sort hands by hand strength and pot commits
         hands = sorted(hands, key=operator.itemgetter(1, 2))
         pot = self.pot
-        remainder = 0
         payouts = [0] * self.num_players
         worst_hand = self.evaluator.table.max_rank + 1
         # iterate over hand strength and
@@ -721,7 +720,13 @@ class Dealer:
             remain = split_pot % len(eligible)
             for player_idx in eligible:
                 payouts[player_idx] += split
-            remainder += remain
+            # give worst position player remainder chips, worst
+            # player is first winner after button
+            if remain:
+                worst_idx = min(
+                    eligible, key=lambda idx: (idx - self.button - 1) % self.num_players
+                )
+                payouts[worst_idx] += remain
             # remove chips from players and pot
             for idx in range(len(cut)):
                 hands[idx][2] -= cut[idx]
@@ -730,13 +735,6 @@ class Dealer:
             hands[hand_idx][1] = worst_hand
             if pot == 0:
                 break
-        # give worst position player remainder chips
-        if remainder:
-            # worst player is first player after button involved in pot
-            for player_idx in range(1, self.num_players + 1):
-                if payouts[player_idx + self.button % self.num_players]:
-                    payouts[player_idx] += remainder
-                    break
         return payouts
 
     def _move_action(self) -> "Dealer":
-- 
2.43.0


From 007c5f832ebe94792e960646cc96b47e6b7cc8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:35 +0000
Subject: [PATCH 04/37] fix: report the winner's payout after the hand is over

The pot is set to 0 when the hand ends, so that rendering the table or calling
step() again after everyone else folded reported a loss for the winner.
---
 clubs/poker/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index 7887ee6..85bf680 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -658,7 +658,7 @@ class Dealer:
         # if only one player left give that player all chips
         if sum(self.active) == 1:
             payouts = [
-                payout + active * (self.pot - pot_commit)
+                payout + active * (sum(self.pot_commits) - pot_commit)
                 for payout, active, pot_commit in zip(
                     payouts, self.active, self.pot_commits
                 )
-- 
2.43.0


From 48bdf23a03338dc57bd7f6f8d9677e17eed8f30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:35 +0000
Subject: [PATCH 05/37] fix: do not return chips to folded players at showdown

With unequal antes a folded player may have committed more than every remaining
player. The part beyond was split between all players, folded ones included.
---
 clubs/poker/engine.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index 85bf680..0f5e7d1 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -700,7 +700,17 @@ class Dealer:
         ]
         # sort hands by hand strength and pot commits
         hands = sorted(hands, key=operator.itemgetter(1, 2))
-        pot = self.pot
+        pot = sum(self.pot_commits)
+        # chips folded players committed beyond every remaining player
+        # go to the last pot
+        max_commit = max(
+            pot_commit
+            for pot_commit, active in zip(self.pot_commits, self.active)
+            if active
+        )
+        for hand in hands:
+            hand[2] = min(hand[2], max_commit)
+        excess = pot - sum(hand[2] for hand in hands)
         payouts = [0] * self.num_players
         worst_hand = self.evaluator.table.max_rank + 1
         # iterate over hand strength and
@@ -716,6 +726,8 @@ class Dealer:
             split_pot = sum(cut)
             if not split_pot:
                 continue
+            if split_pot + excess == pot:
+                split_pot = pot
             split = split_pot // len(eligible)
             remain = split_pot % len(eligible)
             for player_idx in eligible:
-- 
2.43.0


From 3569a11a8192312e3c5ec553d1e82ddaee1dd217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:35 +0000
Subject: [PATCH 06/37] fix: reset the largest raise at the start of a street

A large raise on an earlier street raised the minimum bet of later streets, and
smaller fixed raises on later streets were not counted towards num_raises.
---
 clubs/poker/engine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index 0f5e7d1..e0235e2 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -410,6 +410,7 @@ class Dealer:
                 )
                 if not all_all_in:
                     break
+            self.largest_raise = self.big_blind
             self.street_commits = [0] * self.num_players
             self.street_option = [not active for active in self.active]
             self.street_raises = 0
-- 
2.43.0


From 2fc334286582c717a58992cd193ce69480c968a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:35 +0000
Subject: [PATCH 07/37] fix: record in the history whether a player actually
 folded

A bet of 0 which folds was recorded (and rendered) as a check, a negative bet
which checks as a fold.
---
 clubs/poker/engine.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index e0235e2..6453dd1 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -376,6 +376,9 @@ class Dealer:
         if call and ((bet < call) or fold):
             self.active[self.action] = False
             bet = 0
+            fold = True
+        else:
+            fold = False
 
         # if bet is full raise record as largest raise
         if bet and (bet - call) >= self.largest_raise:
-- 
2.43.0


From 875990c8c7caa608494a03d75ae34eecf07d6d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:35 +0000
Subject: [PATCH 08/37] fix: do not round valid bet sizes

Without a big blind min_raise is 0, and valid bets up to half of max_raise were
rounded to a check.
---
 clubs/poker/engine.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index 6453dd1..766c09c 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -585,6 +585,9 @@ class Dealer:
         # find closest bet size to actual bet
         # round down for tie, order is fold/check -> call -> raise
         bet = max(0, bet)
+        # already a valid bet size
+        if min_raise <= bet <= max_raise:
+            return bet
         idx = argmin([abs(value - bet) for value in [0, call, min_raise, max_raise]])
         # if call closest
         if idx == 1:
-- 
2.43.0


From 86cffd696f209eed4492288689c28ffde7ebdc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:35 +0000
Subject: [PATCH 09/37] fix: never offer a min raise above the pot limit

With a short stacked blind the min raise exceeded the max raise.
---
 clubs/poker/engine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index 766c09c..5a3d1dd 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -563,6 +563,7 @@ class Dealer:
             min_raise = max(self.big_blind, self.largest_raise + call)
             if raise_size == "pot":
                 max_raise = self.pot + call * 2
+                min_raise = min(min_raise, max_raise)
             elif raise_size == float("inf"):
                 max_raise = self.stacks[self.action]
         # if maximum number of raises in street
-- 
2.43.0


From 9ce8789e691e2cdc633a6f894f1b22901c8be205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:35 +0000
Subject: [PATCH 10/37] fix: do not count calls as raises

Without a big blind calling another blind counted towards num_raises.
---
 clubs/poker/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index 5a3d1dd..51edc0d 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -381,7 +381,7 @@ class Dealer:
             fold = False
 
         # if bet is full raise record as largest raise
-        if bet and (bet - call) >= self.largest_raise:
+        if bet > call and (bet - call) >= self.largest_raise:
             self.largest_raise = bet - call
             self.street_raises += 1
 
-- 
2.43.0


From eb7feee4c4fd40c6617c43b953fc0c4ffd845731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:35 +0000
Subject: [PATCH 11/37] fix: leave the table as is when too few players have
 chips

A failed reset() already replaced the active players, and step() then reported
other payouts for the finished hand.
---
 clubs/poker/engine.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index 51edc0d..097136a 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -283,11 +283,12 @@ class Dealer:
             self.active = [True] * self.num_players
             self.stacks = [self.start_stack] * self.num_players
         else:
-            self.active = [stack > 0 for stack in self.stacks]
-            if sum(self.active) <= 1:
+            active = [stack > 0 for stack in self.stacks]
+            if sum(active) <= 1:
                 raise error.TooFewActivePlayersError(
                     "not enough players have chips, set reset_stacks=True"
                 )
+            self.active = active
         if reset_button:
             self.button = 0
         else:
-- 
2.43.0


From 7d98181782f3cade193ae2070b053966f8ec5369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:35 +0000
Subject: [PATCH 12/37] fix: accept float('inf') as raise size

The documentation asks for raise_sizes=float('inf') in no limit games, but only
the string 'inf' was accepted.
---
 clubs/poker/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index 097136a..1e2635b 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -174,7 +174,7 @@ class Dealer:
         def clean_rs(
             raise_size: Union[int, Literal["pot", "inf"]]
         ) -> Union[float, Literal["pot"]]:
-            if raise_size == "inf":
+            if raise_size in ("inf", float("inf")):
                 return float(raise_size)
             if raise_size == "pot":
                 return raise_size
-- 
2.43.0


From 88390ef488bba8c436f250d43635ce5fff019d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:35 +0000
Subject: [PATCH 13/37] fix: do not alias the table state in observations

Observations shared their lists with the dealer, later steps changed
observations returned earlier.
---
 clubs/poker/engine.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index 1e2635b..2071fdf 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -645,16 +645,16 @@ class Dealer:
             call, min_raise, max_raise = self._bet_sizes()
         observation: ObservationDict = {
             "action": self.action,
-            "active": self.active,
+            "active": self.active[:],
             "button": self.button,
             "call": call,
-            "community_cards": self.community_cards,
-            "hole_cards": self.hole_cards[self.action],
+            "community_cards": self.community_cards[:],
+            "hole_cards": self.hole_cards[self.action][:],
             "max_raise": max_raise,
             "min_raise": min_raise,
             "pot": self.pot,
-            "stacks": self.stacks,
-            "street_commits": self.street_commits,
+            "stacks": self.stacks[:],
+            "street_commits": self.street_commits[:],
         }
         return observation
 
-- 
2.43.0


From 2da74beaa29c161c9628e5d3c1fd864f0c4c228a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:35 +0000
Subject: [PATCH 14/37] fix: keep the order of a fully tricked deck

When the trick covers every card of the deck the order was ignored.
---
 clubs/poker/card.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clubs/poker/card.py b/clubs/poker/card.py
index de54134..9559090 100644
--- a/clubs/poker/card.py
+++ b/clubs/poker/card.py
@@ -216,7 +216,7 @@ class Deck:
             self
         """
         self.cards = list(self.full_deck)
-        if self._tricked and self._top_idcs and self._bottom_idcs:
+        if self._tricked and self._top_idcs:
             top_cards = [self.full_deck[idx] for idx in self._top_idcs]
             bottom_cards = [self.full_deck[idx] for idx in self._bottom_idcs]
             random.shuffle(bottom_cards)
-- 
2.43.0


From fb34f6f4826c87aceef575f220900683cd038b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:35 +0000
Subject: [PATCH 15/37] fix: serve the table on the given host

The web server always listened on 127.0.0.1, any other host failed with
RenderInitializationError.
---
 clubs/render/graphic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clubs/render/graphic.py b/clubs/render/graphic.py
index 9eda291..7f21f84 100644
--- a/clubs/render/graphic.py
+++ b/clubs/render/graphic.py
@@ -145,7 +145,7 @@ class GraphicViewer(viewer.PokerViewer):
 
         socketio.start_background_task(listener)
 
-        socketio.run(app, port=self.port)
+        socketio.run(app, host=self.host, port=self.port)
 
     def render(self, config: viewer.RenderConfig, sleep: float = 0) -> None:
         """Render the table in browser based on the table configuration
-- 
2.43.0


From 1f19c41f09b091e7ce58cab2f4709a47ed0e3a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:54 +0000
Subject: [PATCH 16/37] fix: count fixed raises smaller than the big blind

They were not counted towards num_raises, the number of raises was unlimited.
---
 clubs/poker/engine.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index 2071fdf..2575ed8 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -382,7 +382,9 @@ class Dealer:
             fold = False
 
         # if bet is full raise record as largest raise
-        if bet > call and (bet - call) >= self.largest_raise:
+        raise_size = self.raise_sizes[self.street]
+        full_raise = raise_size if isinstance(raise_size, int) else self.largest_raise
+        if bet > call and (bet - call) >= full_raise:
             self.largest_raise = bet - call
             self.street_raises += 1
 
-- 
2.43.0


From a219fe04c6e75874f963474c51f06444315a0795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:54 +0000
Subject: [PATCH 17/37] fix: no combinations when choosing more items than
 there are

Hands needing more ranks than the deck has were counted as possible, the lookup
table of such decks failed with an AssertionError.
---
 clubs/poker/evaluator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clubs/poker/evaluator.py b/clubs/poker/evaluator.py
index 8b4b1e2..c3f7f02 100644
--- a/clubs/poker/evaluator.py
+++ b/clubs/poker/evaluator.py
@@ -661,6 +661,8 @@ def _lexographic_next_bit(bits: int) -> Iterator[int]:
 
 
 def _ncr(n: int, r: int) -> int:
+    if r < 0 or r > n:
+        return 0
     r = min(r, n - r)
     numer = functools.reduce(operator.mul, range(n, n - r, -1), 1)
     denom = functools.reduce(operator.mul, range(1, r + 1), 1)
-- 
2.43.0


From a4d7c10db977ed3bbc1441da379f8229d5e7e55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:54 +0000
Subject: [PATCH 18/37] fix: count straights correctly in decks with few ranks

If the deck has as many ranks as the hand has cards the low end straight is the
same hand as the only other straight, with fewer ranks there is no straight.
The lookup table of such decks failed with an AssertionError.
---
 clubs/poker/evaluator.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/clubs/poker/evaluator.py b/clubs/poker/evaluator.py
index c3f7f02..1722704 100644
--- a/clubs/poker/evaluator.py
+++ b/clubs/poker/evaluator.py
@@ -349,7 +349,7 @@ class LookupTable:
         if cards_for_hand < 3 or suits < 2:
             return 0, 0
         # number of smallest cards which start straight
-        unsuited = ranks - (cards_for_hand - 1) + low_end_straight
+        unsuited = _num_straights(ranks, cards_for_hand, low_end_straight)
         # multiplied with number of suits
         suited = max(unsuited, unsuited * suits)
         return int(suited), int(unsuited)
@@ -389,7 +389,7 @@ class LookupTable:
         if cards_for_hand < 3 or suits < 2:
             return 0, 0
         # all straight combinations
-        straight_flushes = ranks - (cards_for_hand - 1) + low_end_straight
+        straight_flushes = _num_straights(ranks, cards_for_hand, low_end_straight)
         # choose all cards from ranks minus straight flushes
         unsuited = _ncr(ranks, cards_for_hand) - straight_flushes
         # multiplied by number of suits
@@ -403,7 +403,7 @@ class LookupTable:
         if cards_for_hand < 3:
             return 0, 0
         # number of smallest cards which start straight
-        unsuited = ranks - (cards_for_hand - 1) + low_end_straight
+        unsuited = _num_straights(ranks, cards_for_hand, low_end_straight)
         # straight flush combinations
         straight_flushes = 0
         if suits > 1:
@@ -464,7 +464,7 @@ class LookupTable:
         # number of smallest cards which start straight
         straights = 0
         if cards_for_hand > 2:
-            straights = ranks - (cards_for_hand - 1) + low_end_straight
+            straights = _num_straights(ranks, cards_for_hand, low_end_straight)
         # any combination of rank and subtract straights
         unsuited = _ncr(ranks, cards_for_hand) - straights
         # multiplied with suit choices for all cards
@@ -486,7 +486,7 @@ class LookupTable:
         for _ in range(ranks - (cards_for_hand - 1)):
             straight_flushes.append(int(bin_num_str, 2))
             bin_num_str = bin_num_str[:-1]
-        if low_end_straight:
+        if low_end_straight and ranks > cards_for_hand:
             # add low end straight
             bin_num_str = (
                 "0b1"
@@ -631,6 +631,13 @@ class LookupTable:
         return self.hand_dict[better_hand]["cumulative unsuited"] + 1
 
 
+def _num_straights(ranks: int, cards_for_hand: int, low_end_straight: bool) -> int:
+    # the low end straight is the only straight if all ranks are needed
+    if ranks <= cards_for_hand:
+        return int(ranks == cards_for_hand)
+    return ranks - (cards_for_hand - 1) + low_end_straight
+
+
 def _prime_product_from_rank_bits(rankbits: int) -> int:
     product = 1
     for i in card.INT_RANKS:
-- 
2.43.0


From e0daa72e8658cd9ff46c1379d4c1f8c49f19dedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:54 +0000
Subject: [PATCH 19/37] fix: rank straight flushes in decks without other
 flushes

If every flush is a straight flush, straight flushes were ranked as straights.
---
 clubs/poker/evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clubs/poker/evaluator.py b/clubs/poker/evaluator.py
index 1722704..f46fff7 100644
--- a/clubs/poker/evaluator.py
+++ b/clubs/poker/evaluator.py
@@ -315,7 +315,7 @@ class LookupTable:
 
         # if suited hands aren't relevant set the suited
         # lookup table equal to the unsuited table
-        if not self.hand_dict["flush"]["cumulative unsuited"]:
+        if not suited_lookup:
             suited_lookup = unsuited_lookup
 
         self.suited_lookup = suited_lookup
-- 
2.43.0


From 0f533b434447d512dc099d20280f8d208487c9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:54 +0000
Subject: [PATCH 20/37] fix: custom hand orders in decks where some hands are
 impossible

Hands which are impossible in the deck were added to the lookup table when
listed after a possible hand, which failed with an AssertionError.
---
 clubs/poker/evaluator.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/clubs/poker/evaluator.py b/clubs/poker/evaluator.py
index f46fff7..1e081e5 100644
--- a/clubs/poker/evaluator.py
+++ b/clubs/poker/evaluator.py
@@ -298,7 +298,7 @@ class LookupTable:
             hand_rank = u_hand[1]
             cumulative_hands += u_hand[0]
             self.hand_dict[hand_rank]["cumulative unsuited"] = cumulative_hands
-            if cumulative_hands > 0:
+            if u_hand[0] > 0:
                 self.hand_dict[hand_rank]["rank"] = rank
                 rank += 1
                 ranked_hands.append(hand_rank)
@@ -523,8 +523,8 @@ class LookupTable:
     ) -> Tuple[Dict[int, int], Dict[int, int]]:
         straight_flushes = []
         if (
-            self.hand_dict["straight flush"]["cumulative unsuited"]
-            or self.hand_dict["straight"]["cumulative unsuited"]
+            self.hand_dict["straight flush"]["unsuited"]
+            or self.hand_dict["straight"]["unsuited"]
         ):
             straight_flushes = self._gen_straight_flush(
                 cards_for_hand, ranks, low_end_straight
@@ -533,15 +533,15 @@ class LookupTable:
         # flushes (including straight flushes)
         flushes = []
         if (
-            self.hand_dict["flush"]["cumulative unsuited"]
-            or self.hand_dict["high card"]["cumulative unsuited"]
+            self.hand_dict["flush"]["unsuited"]
+            or self.hand_dict["high card"]["unsuited"]
         ):
             flushes = self._gen_flush(cards_for_hand, ranks, straight_flushes)
 
         def add_to_dict(
             rank_string: str, rank_bits: List[int], lookup: Dict[int, int],
         ) -> Dict[int, int]:
-            if not self.hand_dict[rank_string]["cumulative unsuited"]:
+            if not self.hand_dict[rank_string]["unsuited"]:
                 return lookup
             num_ranks = len(rank_bits)
             assert num_ranks == self.hand_dict[rank_string]["unsuited"]
@@ -569,7 +569,7 @@ class LookupTable:
         ) -> Dict[int, int]:
             # inverse ranks, A - 2
             backwards_ranks = list(range(13 - 1, 13 - 1 - ranks, -1))
-            if not self.hand_dict[rank_string]["cumulative unsuited"]:
+            if not self.hand_dict[rank_string]["unsuited"]:
                 return unsuited_lookup
             # get cumulative hand rank
             hand_rank = self._get_rank(rank_string)
-- 
2.43.0


From eed33f4ad81e6a226fc2cb03838a42337a940e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:54 +0000
Subject: [PATCH 21/37] fix: reject hand orders which are not a permutation

Duplicate or unknown hands in a custom order were not rejected with
InvalidOrderError.
---
 clubs/poker/evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clubs/poker/evaluator.py b/clubs/poker/evaluator.py
index 1e081e5..826cf25 100644
--- a/clubs/poker/evaluator.py
+++ b/clubs/poker/evaluator.py
@@ -213,7 +213,7 @@ class LookupTable:
     ):
 
         if order is not None:
-            if any(string not in order for string in self.ORDER_STRINGS):
+            if sorted(order) != sorted(self.ORDER_STRINGS):
                 raise error.InvalidOrderError(
                     (
                         f"invalid order list {order},"
-- 
2.43.0


From 35c8f31c505f3973a2266f3b9a63c11fa3af669e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:54 +0000
Subject: [PATCH 22/37] fix: count suited high cards in hands too small for a
 flush

Pairs were ranked below high cards in two card hands with two ranks, and the
reported probabilities of one and two card hands were wrong.
---
 clubs/poker/evaluator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/clubs/poker/evaluator.py b/clubs/poker/evaluator.py
index 826cf25..74bd021 100644
--- a/clubs/poker/evaluator.py
+++ b/clubs/poker/evaluator.py
@@ -468,8 +468,9 @@ class LookupTable:
         # any combination of rank and subtract straights
         unsuited = _ncr(ranks, cards_for_hand) - straights
         # multiplied with suit choices for all cards
-        # all same suits not allowed
-        suited = max(unsuited, unsuited * (suits ** cards_for_hand - suits))
+        # all same suits not allowed if it is a flush
+        flushes = suits if cards_for_hand > 2 else 0
+        suited = max(unsuited, unsuited * (suits ** cards_for_hand - flushes))
         if suits < 2:
             suited = unsuited
         return int(suited), int(unsuited)
-- 
2.43.0


From ac5b7afd86e454d0d2be51e56f20d8f15e8bcccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:07 +0000
Subject: [PATCH 23/37] fix: stop the web server process if it does not come up

If the server could not be reached GraphicViewer raised and left the process
running, the interpreter then never exited.
---
 clubs/render/graphic.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/clubs/render/graphic.py b/clubs/render/graphic.py
index 7f21f84..377aecf 100644
--- a/clubs/render/graphic.py
+++ b/clubs/render/graphic.py
@@ -59,8 +59,12 @@ class GraphicViewer(viewer.PokerViewer):
         self.process = multiprocessing.Process(target=self._run_flask)
         self.process.start()
 
-        self._test_socket_conn()
-        self._test_flask_conn()
+        try:
+            self._test_socket_conn()
+            self._test_flask_conn()
+        except error.RenderInitializationError:
+            self.close()
+            raise
         print(f"clubs table openend at http://{self.host}:{self.port}")
 
     def _test_socket_conn(self) -> None:
@@ -94,7 +98,8 @@ class GraphicViewer(viewer.PokerViewer):
 
     def close(self) -> None:
         if self.process.is_alive():
-            self.socket.send({"content": "close"})
+            if hasattr(self, "socket"):
+                self.socket.send({"content": "close"})
             self.process.terminate()
             self.process.join()
 
-- 
2.43.0


From f9c82c9772935e16a84dd05c4013a823e6d000fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:33 +0000
Subject: [PATCH 24/37] fix: players without a stake do not share later pots

---
 clubs/poker/engine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index 2575ed8..d07e2c3 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -736,6 +736,7 @@ class Dealer:
             cut = [min(hand[2], pot_commit) for hand in hands]
             split_pot = sum(cut)
             if not split_pot:
+                hands[hand_idx][1] = worst_hand
                 continue
             if split_pot + excess == pot:
                 split_pot = pot
-- 
2.43.0


From fc4039f2f5fc861674b3fbb7e3f8a025a47139e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:32 +0000
Subject: [PATCH 25/37] fix: do not render a hand as done when all players are
 all in after the deal

---
 clubs/poker/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index d07e2c3..4a79802 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -444,7 +444,7 @@ class Dealer:
         ]
         community_cards = self.community_cards
         button = int(self.button)
-        done = all(self._done())
+        done = self.action == -1
         hole_cards = self.hole_cards
         pot = int(self.pot)
         payouts = self._payouts()
-- 
2.43.0


From 8aac74727549beb81dea448caf6c76d44683d76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:44 +0000
Subject: [PATCH 26/37] fix: refuse to open a web table on ports which are in
 use

A viewer on a port of another viewer connected to the server of that one and
seemed to work, one on the next port waited for an answer forever.
---
 clubs/render/graphic.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/clubs/render/graphic.py b/clubs/render/graphic.py
index 377aecf..2f2193b 100644
--- a/clubs/render/graphic.py
+++ b/clubs/render/graphic.py
@@ -57,6 +57,7 @@ class GraphicViewer(viewer.PokerViewer):
         )
 
         self.process = multiprocessing.Process(target=self._run_flask)
+        self._test_ports()
         self.process.start()
 
         try:
@@ -67,6 +68,19 @@ class GraphicViewer(viewer.PokerViewer):
             raise
         print(f"clubs table openend at http://{self.host}:{self.port}")
 
+    def _test_ports(self) -> None:
+        # a connection to a server of somebody else would go unnoticed
+        for port in (self.port, self.port + 1):
+            with socket.socket(socket.AF_INET, socket.SOCK_STREAM) as test_socket:
+                if os.name == "posix":
+                    test_socket.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
+                try:
+                    test_socket.bind((self.host, port))
+                except (OSError, OverflowError) as exc:
+                    raise error.RenderInitializationError(
+                        f"unable to use port {port} on {self.host}"
+                    ) from exc
+
     def _test_socket_conn(self) -> None:
         start = time.time()
         while True:
-- 
2.43.0


From 43869eb013efac6fd2df433ec365dfcb20fdcf27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:15 +0000
Subject: [PATCH 27/37] fix: end the web server when the program it belongs to
 dies

A server whose program was killed stayed behind and kept its ports.
---
 clubs/render/graphic.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/clubs/render/graphic.py b/clubs/render/graphic.py
index 2f2193b..229692e 100644
--- a/clubs/render/graphic.py
+++ b/clubs/render/graphic.py
@@ -152,7 +152,11 @@ class GraphicViewer(viewer.PokerViewer):
             conn = socket.accept()
             while True:
                 if conn.poll():
-                    message: Dict[str, Any] = conn.recv()
+                    try:
+                        message: Dict[str, Any] = conn.recv()
+                    except (EOFError, OSError):
+                        # the viewer's program is gone, nobody else ends the server
+                        os._exit(0)
                     if message["content"] == "close":
                         conn.close()
                         break
-- 
2.43.0


From 4e6eaff37cda9e340fe7e58ea538ca4b502edcaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:56 +0000
Subject: [PATCH 28/37] fix: round fractional bets straight to the nearest
 valid bet size

---
 clubs/poker/engine.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index 4a79802..44d19f3 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -367,7 +367,6 @@ class Dealer:
             raise error.TableResetError("call reset() before calling first step()")
 
         fold = bet < 0
-        bet = round(bet)
 
         call, min_raise, max_raise = self._bet_sizes()
         # round bet to nearest sizing
@@ -585,13 +584,17 @@ class Dealer:
         return call, min_raise, max_raise
 
     @staticmethod
-    def _clean_bet(bet: int, call: int, min_raise: int, max_raise: int) -> int:
+    def _clean_bet(bet: float, call: int, min_raise: int, max_raise: int) -> int:
         # find closest bet size to actual bet
         # round down for tie, order is fold/check -> call -> raise
-        bet = max(0, bet)
+        chips, bet = max(0, round(bet)), max(0, bet)
+        if chips == bet:
+            bet = chips
+        elif chips - bet == 0.5:
+            chips -= 1
         # already a valid bet size
         if min_raise <= bet <= max_raise:
-            return bet
+            return chips
         idx = argmin([abs(value - bet) for value in [0, call, min_raise, max_raise]])
         # if call closest
         if idx == 1:
-- 
2.43.0


From fe9c35dc15fcc484b37ae8e0bfed319a422c74d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:24 +0000
Subject: [PATCH 29/37] fix: leave room for the pot on web tables without board
 cards

---
 clubs/render/graphic.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/clubs/render/graphic.py b/clubs/render/graphic.py
index 229692e..57f161f 100644
--- a/clubs/render/graphic.py
+++ b/clubs/render/graphic.py
@@ -655,7 +655,10 @@ class _SVGPoker:
         community = player.copy()
         card = card.copy()
 
-        community.width = card.width * (self.num_community_cards + 1) + 20
+        community.width = max(
+            0 if community.width is None else community.width,
+            card.width * (self.num_community_cards + 1) + 20,
+        )
         cards = community.get_sub_svg("cards", "class")
         cards.width = community.width
         card_background = card.get_sub_svg("card-background", "class")
-- 
2.43.0


From af1401227459a3587e07b21d68cb85dde9023482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:17 +0000
Subject: [PATCH 30/37] fix: refuse the long s as a suit

---
 clubs/poker/card.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clubs/poker/card.py b/clubs/poker/card.py
index 9559090..58b978e 100644
--- a/clubs/poker/card.py
+++ b/clubs/poker/card.py
@@ -59,7 +59,8 @@ class Card:
     def __init__(self, string: str) -> None:
 
         rank_char = string[0].upper()
-        suit_char = string[1].upper()
+        # letters beyond ascii may have an ascii upper case, e.g. the long s
+        suit_char = string[1].upper() if ord(string[1]) < 128 else string[1]
         try:
             rank_int = CHAR_RANK_TO_INT_RANK[rank_char]
         except KeyError:
-- 
2.43.0


From f1a7265e72507dfc1fe9434770bba48c7e7c9620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:13 +0000
Subject: [PATCH 31/37] fix: hand viewers a description of their own instead of
 the table's lists

---
 clubs/poker/engine.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index 44d19f3..92b23f9 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -436,19 +436,19 @@ class Dealer:
 
     def _render_config(self) -> render.viewer.RenderConfig:
         action = int(self.action)
-        active = self.active
+        active = self.active[:]
         all_in = [
             bool(active * (stack == 0))
             for active, stack in zip(self.active, self.stacks)
         ]
-        community_cards = self.community_cards
+        community_cards = self.community_cards[:]
         button = int(self.button)
         done = self.action == -1
-        hole_cards = self.hole_cards
+        hole_cards = [cards[:] for cards in self.hole_cards]
         pot = int(self.pot)
         payouts = self._payouts()
-        street_commits = self.street_commits
-        stacks = self.stacks
+        street_commits = self.street_commits[:]
+        stacks = self.stacks[:]
 
         config: render.viewer.RenderConfig = {
             "action": action,
-- 
2.43.0


From efcc5b94dc657be17ef6a0f98e5bcbb500d48642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:02 +0000
Subject: [PATCH 32/37] fix: keep the lists of a configuration apart from the
 table's

---
 clubs/poker/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index 92b23f9..09cb681 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -145,7 +145,7 @@ class Dealer:
             if isinstance(var, list):
                 if len(var) != expect_num:
                     raise error.InvalidConfigError(error_msg)
-                return var
+                return var[:]
             return [var] * expect_num
 
         error_msg = "incorrect {} distribution, expected list of length {}, got {}"
-- 
2.43.0


From 4a2ed0f2d64b892abd4a812f9abc188492a332a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:23 +0000
Subject: [PATCH 33/37] fix: refuse unknown render modes of tables with a
 viewer too

---
 clubs/poker/engine.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index 09cb681..da38045 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -479,15 +479,15 @@ class Dealer:
         """
         viewer: Optional[Type[render.PokerViewer]] = None
         render_modes = ["ascii", "human"]
+        if mode not in render_modes:
+            raise error.InvalidRenderModeError(
+                (f"incorrect render mode {mode}," f"use one of {render_modes}")
+            )
         if self.viewer is None:
             if mode == "ascii":
                 viewer = render.ASCIIViewer
             elif mode == "human":
                 viewer = render.GraphicViewer
-            else:
-                raise error.InvalidRenderModeError(
-                    (f"incorrect render mode {mode}," f"use one of {render_modes}")
-                )
             self.viewer = viewer(
                 self.num_players,
                 self.num_hole_cards,
-- 
2.43.0


From e4925279ee5e157d8cbba0cdf3db911dcbe92ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:24:27 +0000
Subject: [PATCH 34/37] fix: end the web server with the program it belongs to,
 which waited for it forever

---
 clubs/render/graphic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clubs/render/graphic.py b/clubs/render/graphic.py
index 57f161f..2447691 100644
--- a/clubs/render/graphic.py
+++ b/clubs/render/graphic.py
@@ -56,7 +56,7 @@ class GraphicViewer(viewer.PokerViewer):
             self.num_players, self.num_hole_cards, self.num_community_cards
         )
 
-        self.process = multiprocessing.Process(target=self._run_flask)
+        self.process = multiprocessing.Process(target=self._run_flask, daemon=True)
         self._test_ports()
         self.process.start()
 
-- 
2.43.0


From 8c047e9aa177585bb95fa9b02d8977f35167d7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:31:41 +0000
Subject: [PATCH 35/37] fix: a connection of a web table's program to itself is
 none to the server

---
 clubs/render/graphic.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/clubs/render/graphic.py b/clubs/render/graphic.py
index 2447691..84b6cab 100644
--- a/clubs/render/graphic.py
+++ b/clubs/render/graphic.py
@@ -5,6 +5,7 @@ import math
 import multiprocessing
 import os
 import socket
+import struct
 import time
 import urllib.error
 import urllib.request
@@ -85,7 +86,19 @@ class GraphicViewer(viewer.PokerViewer):
         start = time.time()
         while True:
             try:
-                self.socket = connection.Client((self.host, self.port + 1))
+                client = connection.Client((self.host, self.port + 1))
+                # as long as nobody listens a socket can get connected to itself
+                test_socket = socket.socket(fileno=client.fileno())
+                own = test_socket.getsockname() == test_socket.getpeername()
+                if own:
+                    # leave the port to the server at once
+                    linger = struct.pack("ii", 1, 0)
+                    test_socket.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, linger)
+                test_socket.detach()
+                if own:
+                    client.close()
+                    raise ConnectionRefusedError
+                self.socket = client
                 break
             except (ConnectionRefusedError, OSError):
                 time.sleep(0.01)
-- 
2.43.0


From 3a4a4d23913c6b265d1374da559cac89f441f1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:40:07 +0000
Subject: [PATCH 36/37] fix: look on for ports as long as the next one to a
 free one is in use

---
 clubs/render/graphic.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/clubs/render/graphic.py b/clubs/render/graphic.py
index 84b6cab..2e820d8 100644
--- a/clubs/render/graphic.py
+++ b/clubs/render/graphic.py
@@ -1,3 +1,4 @@
+import contextlib
 import copy
 import http.client
 import imp
@@ -48,10 +49,15 @@ class GraphicViewer(viewer.PokerViewer):
         if port:
             self.port = port
         else:
-            tmp_socket = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
-            tmp_socket.bind(("", 0))
-            self.port = tmp_socket.getsockname()[1]
-            tmp_socket.close()
+            # the port next to a free one can be in use
+            for _ in range(100):
+                tmp_socket = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
+                tmp_socket.bind(("", 0))
+                self.port = tmp_socket.getsockname()[1]
+                tmp_socket.close()
+                with contextlib.suppress(error.RenderInitializationError):
+                    self._test_ports()
+                    break
 
         self.svg_poker = _SVGPoker(
             self.num_players, self.num_hole_cards, self.num_community_cards
-- 
2.43.0


From 04089d7e136578f906951d0c9dfae7b88cba51ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:17:25 +0000
Subject: [PATCH 37/37] fix: open web tables whatever proxy the environment
 names

---
 clubs/render/graphic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/clubs/render/graphic.py b/clubs/render/graphic.py
index 2e820d8..c4a8944 100644
--- a/clubs/render/graphic.py
+++ b/clubs/render/graphic.py
@@ -115,10 +115,12 @@ class GraphicViewer(viewer.PokerViewer):
 
     def _test_flask_conn(self) -> None:
         start = time.time()
+        # proxies do not know the servers of this machine
+        opener = urllib.request.build_opener(urllib.request.ProxyHandler({}))
         response: Optional[http.client.HTTPResponse] = None
         while True:
             try:
-                response = urllib.request.urlopen(f"http://{self.host}:{self.port}")
+                response = opener.open(f"http://{self.host}:{self.port}")
                 break
             except urllib.error.URLError:
                 time.sleep(0.01)
-- 
2.43.0

