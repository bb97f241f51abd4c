From 4fb494a4200fdb6f709fc3c3d8f16878da35bee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:17 +0000
Subject: [PATCH 01/19] fix: give odd chips to first winner left of the button

---
 clubs/poker/engine.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index c18e6e3..94c1eea 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -728,8 +728,9 @@ class Dealer:
         # give worst position player remainder chips
         if remainder:
             # worst player is first player after button involved in pot
-            for player_idx in range(1, self.num_players + 1):
-                if payouts[player_idx + self.button % self.num_players]:
+            for offset in range(1, self.num_players + 1):
+                player_idx = (self.button + offset) % self.num_players
+                if payouts[player_idx]:
                     payouts[player_idx] += remainder
                     break
         return payouts
-- 
2.43.0


From 73a6b532b999d3b869c186f9fdd1499bf60e3335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:17 +0000
Subject: [PATCH 02/19] fix: never collect larger blinds or antes than the
 stack of a player

---
 clubs/poker/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index 94c1eea..ea0871b 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -592,7 +592,7 @@ class Dealer:
         # roll list to action
         bets = bets[-self.action :] + bets[: -self.action]  # noqa: E203
         bets = [
-            (stack > 0) * active * bet
+            min(stack, (stack > 0) * active * bet)
             for stack, active, bet in zip(self.stacks, self.active, bets)
         ]
         if street_commits:
-- 
2.43.0


From ec37a7175a3a30b28e4bb78bdbe0805e38907fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:17 +0000
Subject: [PATCH 03/19] fix: play hand to showdown when last player able to act
 is all in

---
 clubs/poker/engine.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index ea0871b..df613d7 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -524,8 +524,14 @@ class Dealer:
         return win_probs
 
     def _all_agreed(self) -> bool:
-        # not all agreed if not all players had chance to act
-        if not all(self.street_option):
+        # not all agreed if not all players able to act had chance to act
+        had_chance = [
+            option or stack == 0 or not active
+            for option, stack, active in zip(
+                self.street_option, self.stacks, self.active
+            )
+        ]
+        if not all(had_chance):
             return False
         # all agreed if street commits equal to maximum street commit
         street_commit = [
-- 
2.43.0


From 6a7a30304c31227bac72f082f34ee0f77f2f2c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:17 +0000
Subject: [PATCH 04/19] fix: award chips folded players committed beyond all
 others to last pot

---
 clubs/poker/engine.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index df613d7..d3b3628 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -715,6 +715,10 @@ class Dealer:
             ]
             # cut can only be as large as lowest player commit amount
             cut = [min(hand[2], pot_commit) for hand in hands]
+            # chips folded players committed beyond all players still
+            # involved are part of the last pot
+            if all(hand[2] <= pot_commit or not self.active[hand[0]] for hand in hands):
+                cut = [hand[2] for hand in hands]
             split_pot = sum(cut)
             if not split_pot:
                 continue
-- 
2.43.0


From 100d6522b8f78e3bf478c37385ddee6831e81c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:17 +0000
Subject: [PATCH 05/19] fix: report won pot as payout after pot was cleared at
 end of hand

---
 clubs/poker/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index d3b3628..9d46ec9 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -659,7 +659,7 @@ class Dealer:
         # if only one player left give that player all chips
         if sum(self.active) == 1:
             payouts = [
-                payout + active * (self.pot - pot_commit)
+                payout + active * (sum(self.pot_commits) - pot_commit)
                 for payout, active, pot_commit in zip(
                     payouts, self.active, self.pot_commits
                 )
-- 
2.43.0


From 74f8b7ebe3871ec222649b5e282c5fd898998a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:17 +0000
Subject: [PATCH 06/19] fix: record fold in history exactly when player folded

---
 clubs/poker/engine.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index 9d46ec9..20b3454 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -373,7 +373,8 @@ class Dealer:
         bet = self._clean_bet(bet, call, min_raise, max_raise)
 
         # only fold if player cannot check
-        if call and ((bet < call) or fold):
+        fold = bool(call and ((bet < call) or fold))
+        if fold:
             self.active[self.action] = False
             bet = 0
 
@@ -384,7 +385,7 @@ class Dealer:
 
         self._collect_bet(bet)
 
-        self.history.append((self.action, int(bet), bool(fold)))
+        self.history.append((self.action, int(bet), fold))
 
         self.street_option[self.action] = True
         self._move_action()
-- 
2.43.0


From 544ba89c8a60650b2d74fb3acd32412c0b3e2e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:17 +0000
Subject: [PATCH 07/19] fix: do not round valid raises to check or call

---
 clubs/poker/engine.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index 20b3454..181282c 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -583,6 +583,9 @@ class Dealer:
         # find closest bet size to actual bet
         # round down for tie, order is fold/check -> call -> raise
         bet = max(0, bet)
+        # bet between min raise and max raise is already valid
+        if min_raise <= bet <= max_raise:
+            return bet
         idx = argmin([abs(value - bet) for value in [0, call, min_raise, max_raise]])
         # if call closest
         if idx == 1:
-- 
2.43.0


From e4b8004fb7ddeac6fef0524355d62a973cb16e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:17 +0000
Subject: [PATCH 08/19] fix: keep min raise below max raise in pot limit games

---
 clubs/poker/engine.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index 181282c..b0b1e52 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -561,6 +561,8 @@ class Dealer:
             min_raise = max(self.big_blind, self.largest_raise + call)
             if raise_size == "pot":
                 max_raise = self.pot + call * 2
+                # pot can be too small for min raise if blinds were not posted
+                min_raise = min(min_raise, max_raise)
             elif raise_size == float("inf"):
                 max_raise = self.stacks[self.action]
         # if maximum number of raises in street
-- 
2.43.0


From 730844a86b443c1569d65b287950243a1658350d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:17 +0000
Subject: [PATCH 09/19] fix: keep order of tricked deck if all cards are
 tricked

---
 clubs/poker/card.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clubs/poker/card.py b/clubs/poker/card.py
index de54134..9559090 100644
--- a/clubs/poker/card.py
+++ b/clubs/poker/card.py
@@ -216,7 +216,7 @@ class Deck:
             self
         """
         self.cards = list(self.full_deck)
-        if self._tricked and self._top_idcs and self._bottom_idcs:
+        if self._tricked and self._top_idcs:
             top_cards = [self.full_deck[idx] for idx in self._top_idcs]
             bottom_cards = [self.full_deck[idx] for idx in self._bottom_idcs]
             random.shuffle(bottom_cards)
-- 
2.43.0


From 68e71079d77350edffc8da4174dbf2cf1d950398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:17 +0000
Subject: [PATCH 10/19] fix: accept documented raise size float('inf')

---
 clubs/poker/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index b0b1e52..64ce452 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -174,7 +174,7 @@ class Dealer:
         def clean_rs(
             raise_size: Union[int, Literal["pot", "inf"]]
         ) -> Union[float, Literal["pot"]]:
-            if raise_size == "inf":
+            if raise_size in ("inf", float("inf")):
                 return float(raise_size)
             if raise_size == "pot":
                 return raise_size
-- 
2.43.0


From 72504325cae823fa2428a95460a72e9b32550796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:45 +0000
Subject: [PATCH 11/19] fix: count suited high cards of one and two card hands

---
 clubs/poker/evaluator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/clubs/poker/evaluator.py b/clubs/poker/evaluator.py
index 8b4b1e2..81e287f 100644
--- a/clubs/poker/evaluator.py
+++ b/clubs/poker/evaluator.py
@@ -468,8 +468,9 @@ class LookupTable:
         # any combination of rank and subtract straights
         unsuited = _ncr(ranks, cards_for_hand) - straights
         # multiplied with suit choices for all cards
-        # all same suits not allowed
-        suited = max(unsuited, unsuited * (suits ** cards_for_hand - suits))
+        # all same suits not allowed if it is a flush
+        flushes = suits if cards_for_hand > 2 else 0
+        suited = max(unsuited, unsuited * (suits ** cards_for_hand - flushes))
         if suits < 2:
             suited = unsuited
         return int(suited), int(unsuited)
-- 
2.43.0


From 224bc45890e4adc938fcc10bab8de72e44462c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:01 +0000
Subject: [PATCH 12/19] fix: build lookup tables of decks with few ranks

---
 clubs/poker/evaluator.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/clubs/poker/evaluator.py b/clubs/poker/evaluator.py
index 81e287f..388add7 100644
--- a/clubs/poker/evaluator.py
+++ b/clubs/poker/evaluator.py
@@ -349,7 +349,7 @@ class LookupTable:
         if cards_for_hand < 3 or suits < 2:
             return 0, 0
         # number of smallest cards which start straight
-        unsuited = ranks - (cards_for_hand - 1) + low_end_straight
+        unsuited = _num_straights(ranks, cards_for_hand, low_end_straight)
         # multiplied with number of suits
         suited = max(unsuited, unsuited * suits)
         return int(suited), int(unsuited)
@@ -389,7 +389,7 @@ class LookupTable:
         if cards_for_hand < 3 or suits < 2:
             return 0, 0
         # all straight combinations
-        straight_flushes = ranks - (cards_for_hand - 1) + low_end_straight
+        straight_flushes = _num_straights(ranks, cards_for_hand, low_end_straight)
         # choose all cards from ranks minus straight flushes
         unsuited = _ncr(ranks, cards_for_hand) - straight_flushes
         # multiplied by number of suits
@@ -403,7 +403,7 @@ class LookupTable:
         if cards_for_hand < 3:
             return 0, 0
         # number of smallest cards which start straight
-        unsuited = ranks - (cards_for_hand - 1) + low_end_straight
+        unsuited = _num_straights(ranks, cards_for_hand, low_end_straight)
         # straight flush combinations
         straight_flushes = 0
         if suits > 1:
@@ -464,7 +464,7 @@ class LookupTable:
         # number of smallest cards which start straight
         straights = 0
         if cards_for_hand > 2:
-            straights = ranks - (cards_for_hand - 1) + low_end_straight
+            straights = _num_straights(ranks, cards_for_hand, low_end_straight)
         # any combination of rank and subtract straights
         unsuited = _ncr(ranks, cards_for_hand) - straights
         # multiplied with suit choices for all cards
@@ -487,7 +487,7 @@ class LookupTable:
         for _ in range(ranks - (cards_for_hand - 1)):
             straight_flushes.append(int(bin_num_str, 2))
             bin_num_str = bin_num_str[:-1]
-        if low_end_straight:
+        if low_end_straight and ranks > cards_for_hand:
             # add low end straight
             bin_num_str = (
                 "0b1"
@@ -661,7 +661,15 @@ def _lexographic_next_bit(bits: int) -> Iterator[int]:
         yield lex
 
 
+def _num_straights(ranks: int, cards_for_hand: int, low_end_straight: bool) -> int:
+    straights = max(0, ranks - (cards_for_hand - 1))
+    # if all ranks are part of the straight the low end straight is no extra straight
+    return straights + (low_end_straight and ranks > cards_for_hand)
+
+
 def _ncr(n: int, r: int) -> int:
+    if r < 0 or r > n:
+        return 0
     r = min(r, n - r)
     numer = functools.reduce(operator.mul, range(n, n - r, -1), 1)
     denom = functools.reduce(operator.mul, range(1, r + 1), 1)
-- 
2.43.0


From 253e90cd57859c732567c877c0dae557890ba8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:01 +0000
Subject: [PATCH 13/19] fix: reject hand orders with repeated or unknown hands

---
 clubs/poker/evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clubs/poker/evaluator.py b/clubs/poker/evaluator.py
index 388add7..27f62b7 100644
--- a/clubs/poker/evaluator.py
+++ b/clubs/poker/evaluator.py
@@ -213,7 +213,7 @@ class LookupTable:
     ):
 
         if order is not None:
-            if any(string not in order for string in self.ORDER_STRINGS):
+            if sorted(order) != sorted(self.ORDER_STRINGS):
                 raise error.InvalidOrderError(
                     (
                         f"invalid order list {order},"
-- 
2.43.0


From ef644d3be98eb8e93aaf806df7929e2136bc900f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:01 +0000
Subject: [PATCH 14/19] fix: ignore hands the deck can not produce in custom
 hand orders

---
 clubs/poker/evaluator.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/clubs/poker/evaluator.py b/clubs/poker/evaluator.py
index 27f62b7..f2ba8f5 100644
--- a/clubs/poker/evaluator.py
+++ b/clubs/poker/evaluator.py
@@ -298,7 +298,7 @@ class LookupTable:
             hand_rank = u_hand[1]
             cumulative_hands += u_hand[0]
             self.hand_dict[hand_rank]["cumulative unsuited"] = cumulative_hands
-            if cumulative_hands > 0:
+            if u_hand[0] > 0:
                 self.hand_dict[hand_rank]["rank"] = rank
                 rank += 1
                 ranked_hands.append(hand_rank)
@@ -315,7 +315,7 @@ class LookupTable:
 
         # if suited hands aren't relevant set the suited
         # lookup table equal to the unsuited table
-        if not self.hand_dict["flush"]["cumulative unsuited"]:
+        if not suited_lookup:
             suited_lookup = unsuited_lookup
 
         self.suited_lookup = suited_lookup
@@ -524,8 +524,8 @@ class LookupTable:
     ) -> Tuple[Dict[int, int], Dict[int, int]]:
         straight_flushes = []
         if (
-            self.hand_dict["straight flush"]["cumulative unsuited"]
-            or self.hand_dict["straight"]["cumulative unsuited"]
+            self.hand_dict["straight flush"]["unsuited"]
+            or self.hand_dict["straight"]["unsuited"]
         ):
             straight_flushes = self._gen_straight_flush(
                 cards_for_hand, ranks, low_end_straight
@@ -534,15 +534,15 @@ class LookupTable:
         # flushes (including straight flushes)
         flushes = []
         if (
-            self.hand_dict["flush"]["cumulative unsuited"]
-            or self.hand_dict["high card"]["cumulative unsuited"]
+            self.hand_dict["flush"]["unsuited"]
+            or self.hand_dict["high card"]["unsuited"]
         ):
             flushes = self._gen_flush(cards_for_hand, ranks, straight_flushes)
 
         def add_to_dict(
             rank_string: str, rank_bits: List[int], lookup: Dict[int, int],
         ) -> Dict[int, int]:
-            if not self.hand_dict[rank_string]["cumulative unsuited"]:
+            if not self.hand_dict[rank_string]["unsuited"]:
                 return lookup
             num_ranks = len(rank_bits)
             assert num_ranks == self.hand_dict[rank_string]["unsuited"]
@@ -570,7 +570,7 @@ class LookupTable:
         ) -> Dict[int, int]:
             # inverse ranks, A - 2
             backwards_ranks = list(range(13 - 1, 13 - 1 - ranks, -1))
-            if not self.hand_dict[rank_string]["cumulative unsuited"]:
+            if not self.hand_dict[rank_string]["unsuited"]:
                 return unsuited_lookup
             # get cumulative hand rank
             hand_rank = self._get_rank(rank_string)
-- 
2.43.0


From 26431539ebefec32ad479e9854e54154d0eb2401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:42 +0000
Subject: [PATCH 15/19] fix: never split side pots with players who put no
 chips into them

---
 clubs/poker/engine.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index 64ce452..21890f0 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -727,6 +727,8 @@ class Dealer:
                 cut = [hand[2] for hand in hands]
             split_pot = sum(cut)
             if not split_pot:
+                # all chips already paid out, remove player from next split pot
+                hands[hand_idx][1] = worst_hand
                 continue
             split = split_pot // len(eligible)
             remain = split_pot % len(eligible)
-- 
2.43.0


From 8692bbc2dce731ef9946462fb64f27b9af7c7dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:14 +0000
Subject: [PATCH 16/19] fix: render a hand with everyone all in from the start
 as still running

---
 clubs/poker/engine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index 21890f0..b93ed35 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -438,7 +438,8 @@ class Dealer:
         ]
         community_cards = self.community_cards
         button = int(self.button)
-        done = all(self._done())
+        # everyone can be all in from the start while the hand is still running
+        done = self.action == -1
         hole_cards = self.hole_cards
         pot = int(self.pot)
         payouts = self._payouts()
-- 
2.43.0


From 4375cf65e5c3b10f602efe8be80ccb3e3dcdd1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:06 +0000
Subject: [PATCH 17/19] fix: a refused reset no longer changes who is in the
 hand

---
 clubs/poker/engine.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index b93ed35..ceb3092 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -283,11 +283,12 @@ class Dealer:
             self.active = [True] * self.num_players
             self.stacks = [self.start_stack] * self.num_players
         else:
-            self.active = [stack > 0 for stack in self.stacks]
-            if sum(self.active) <= 1:
+            active = [stack > 0 for stack in self.stacks]
+            if sum(active) <= 1:
                 raise error.TooFewActivePlayersError(
                     "not enough players have chips, set reset_stacks=True"
                 )
+            self.active = active
         if reset_button:
             self.button = 0
         else:
-- 
2.43.0


From 8da7d8f46ad1ffcc73ab304564aa4063ac681f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:23:46 +0000
Subject: [PATCH 18/19] fix: serve the table at the announced host

The web server of the graphical viewer was started without the host the
viewer was given, so the page was only served on 127.0.0.1 and every viewer
with another host failed to open.
---
 clubs/render/graphic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clubs/render/graphic.py b/clubs/render/graphic.py
index 9eda291..7f21f84 100644
--- a/clubs/render/graphic.py
+++ b/clubs/render/graphic.py
@@ -145,7 +145,7 @@ class GraphicViewer(viewer.PokerViewer):
 
         socketio.start_background_task(listener)
 
-        socketio.run(app, port=self.port)
+        socketio.run(app, host=self.host, port=self.port)
 
     def render(self, config: viewer.RenderConfig, sleep: float = 0) -> None:
         """Render the table in browser based on the table configuration
-- 
2.43.0


From 2f5859526b2e3917c999b15e33614ebc717e8a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:50:11 +0000
Subject: [PATCH 19/19] fix: refuse to open a table on a port that is in use

A second viewer on the port of another one seemed to open: it connected to
the socket and the page of the first, its own process ended and nothing it
rendered was shown anywhere.
---
 clubs/render/graphic.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/clubs/render/graphic.py b/clubs/render/graphic.py
index 7f21f84..6858a00 100644
--- a/clubs/render/graphic.py
+++ b/clubs/render/graphic.py
@@ -57,12 +57,26 @@ class GraphicViewer(viewer.PokerViewer):
         )
 
         self.process = multiprocessing.Process(target=self._run_flask)
+        self._test_ports()
         self.process.start()
 
         self._test_socket_conn()
         self._test_flask_conn()
         print(f"clubs table openend at http://{self.host}:{self.port}")
 
+    def _test_ports(self) -> None:
+        for port in (self.port, self.port + 1):
+            tmp_socket = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
+            tmp_socket.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
+            try:
+                tmp_socket.bind((self.host, port))
+            except OSError:
+                raise error.RenderInitializationError(
+                    f"unable to open table, port {port} is not available"
+                )
+            finally:
+                tmp_socket.close()
+
     def _test_socket_conn(self) -> None:
         start = time.time()
         while True:
-- 
2.43.0

