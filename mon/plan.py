"""What every check runs: module, cases, required observations, wording."""
WORKERS = 8

TABLE = ("A case plays one or more hands of a random table (2-10 seats, 1-5 streets, "
         "random deck, board, blinds, antes, limits, caps, stacks; seats bet by random "
         "styles from passive to hostile) on the real Dealer and judges every call. ")
TABLE_TRUST = [
    "the reference table and hand ranking in mon/rules.py and mon/hands.py",
    "tables a real game can have: enough cards in the deck, at least two players with chips",
    "bets are finite numbers whose fraction is not exactly one half",
]

PROPS = {}


def prop(pid, module, case, quick, thorough, required, rule, assumptions=TABLE_TRUST,
         cap=(120, 600), **extra):
    PROPS[pid] = dict(
        module=module, case=case, cases={"quick": quick, "thorough": thorough},
        cap={"quick": cap[0], "thorough": cap[1]}, required=required, rule=rule,
        assumptions=list(assumptions), **extra)


prop("C01", "table", "conservation", 10000, 200000,
     {"balances": 2000, "hands_balanced": 500},
     TABLE + "Non-trivial: more than two seats put chips in; distinct by chips put in and payouts.")
prop("C02", "table", "settlement", 10000, 200000,
     {"payout_vectors": 2000, "hands_settled": 500, "folded_seats": 200},
     TABLE + "Non-trivial: somebody won chips; distinct by chips put in and payouts.")
prop("C03", "table", "showdown", 7500, 150000,
     {"showdowns": 500, "showdowns_with_side_pots": 100, "split_pots": 100},
     TABLE + "Non-trivial: a showdown of at least two hands; distinct by chips put in, "
     "players left and strengths.")
prop("C04", "table", "oddchips", 7500, 150000,
     {"showdowns_with_odd_chips": 200, "odd_pots_won_after_button": 50,
      "odd_pots_won_across_seat_zero": 20},
     TABLE + "Decks of few ranks make ties frequent. Non-trivial: a showdown with odd chips; "
     "distinct by chips put in, winners and button.")
prop("C05", "table", "foldout", 7500, 150000,
     {"uncontested_pots": 300, "uncontested_multiway": 100},
     TABLE + "Non-trivial: everybody but one folded; distinct by chips put in, winner, button.")
prop("C06", "table", "offers", 10000, 200000,
     {"offers": 3000, "pot_limit_offers": 300, "no_limit_offers": 300,
      "fixed_limit_offers": 300},
     TABLE + "Non-trivial: raising was open, so sizes had to be right; distinct by limit, "
     "pot, commitments, stack and last full raise.")
prop("C07", "table", "betting", 10000, 200000,
     {"bets": 3000, "illegal_bets": 500, "negative_bets": 100, "fractional_bets": 50,
      "raises": 300, "calls": 300, "folds": 300, "checks": 300},
     TABLE + "Non-trivial: every bet; distinct by bet, offered sizes and stack.")
prop("C08", "table", "raise_rights", 10000, 200000,
     {"rights_checked": 2000, "capped": 200, "reraise_refused": 100, "short_raises": 100,
      "full_raises": 300},
     TABLE + "Non-trivial: a decision with known raise history; distinct by raises made, "
     "cap, amount faced, last full raise, stack, commitments.")
prop("C09", "table", "turn_order", 10000, 200000,
     {"turns": 3000, "street_openers": 300},
     TABLE + "Non-trivial: a turn; distinct by players in the hand, seat, button, stacks.")
prop("C10", "table", "streets", 10000, 200000,
     {"street_decisions": 3000, "streets_opened": 300, "showdowns": 200, "boards_run_out": 50},
     TABLE + "Non-trivial: a street opened or a hand ended; distinct by street, board and chips.")
prop("C11", "table", "ending", 10000, 200000,
     {"hands_ended": 500, "done_vectors": 2000, "steps_after_the_end": 500},
     TABLE + "Non-trivial: a hand played to its end; distinct by chips put in, length, players left.")
prop("C12", "table", "forced_bets", 7500, 150000,
     {"deals": 2000, "forced_bets": 2000, "short_stacks_posting": 200,
      "deals_with_busted_seats": 200},
     TABLE + "Non-trivial: somebody posted an ante or blind; distinct by button, posts, stacks.")
prop("C13", "table", "dealing", 6000, 120000,
     {"tables_inspected": 2000, "hands_dealt": 500, "prepared_deals": 300},
     TABLE + "Some decks are prepared with trick(). Non-trivial: a hand dealt to its end; "
     "distinct by hole cards and board.")
prop("C21", "table", "fidelity", 6000, 120000,
     {"observations": 2000, "snapshots_rechecked": 2000, "objects_overwritten": 2000,
      "twin_hands": 200},
     TABLE + "Earlier observations are re-read after later calls; a twin game has all "
     "returned objects overwritten. Non-trivial: an observation of an undecided hand; "
     "distinct by stacks, pot, cards and seat.")
prop("C30", "table", "sessions", 4000, 80000,
     {"deals": 2000, "tables_with_one_player_left": 50, "hands_with_busted_seats": 200},
     TABLE + "Tables run for up to 25 hands. Non-trivial: a deal; distinct by button and stacks.")

AGGREGATE = {}


def shards(pid, tier):
    return PROPS[pid].get("shards", WORKERS)

DECK_TRUST = ["the reference hand ranking in mon/hands.py"]

prop("C14", "cards", "deck_operations", 10000, 200000,
     {"draws": 5000, "shuffles": 3000, "prepared_shuffles": 2000, "draws_beyond_the_end": 500,
      "decks_compared": 10000, "foreign_cards_refused": 200},
     "A case is a random sequence of draw, shuffle, trick and untrick on up to three decks, "
     "mirrored on a list; distinct by the sequence.", ["decks are used through their methods"])
prop("C15", "cards", "fairness", 112, 560,
     {"statistics": 200, "shuffles": 1000000, "orders_compared": 50000},
     "A case shuffles one deck thousands of times and computes chi square statistics of "
     "orders, positions, neighbours, successive top cards, positions before and after use, in two "
     "decks and dealt cards; no order of a big deck may come twice. Non-trivial: a "
     "statistic; distinct by statistic and value.",
     ["a fair shuffle reaches z = 7 with probability below 1e-11"])
prop("C16", "cards", "card_identity", 32, 32,
     {"cards": 140, "pairs": 2700, "strings_refused": 9000, "strings_accepted": 140,
      "characters_tried": 1000000},
     "All 52 cards in all spellings, all ordered pairs of cards, all two character printable "
     "strings, every unicode character as a rank and as a suit. Non-trivial: a valid card or "
     "pair.", [], exhaustive=True)
prop("C17", "cards", "hand_order", 900, 20000,
     {"decks_by_rarity": 400, "decks_by_custom_order": 100, "hands_evaluated": 150000,
      "ranks_looked_up": 5000},
     "A case is a deck (suits, ranks, hand size, low straights) with one hand of every rank "
     "pattern, flush and not; the first cases are all 486 decks ordered by rarity, the "
     "others custom orders. Distinct by deck shape, category and tie break.", DECK_TRUST)
prop("C18", "cards", "best_hand", 6000, 50000,
     {"evaluations": 5000, "evaluations_with_mandatory_cards": 1000,
      "mandatory_cards_mattered": 300, "evaluations_of_big_boards": 1000,
      "evaluations_of_big_hands": 1000, "compared_with_reference": 1000},
     "A case is a deck with 30 random deals of hole and board cards; every legal hand is "
     "evaluated on its own. Distinct by deal and number of mandatory cards.", DECK_TRUST)
prop("C19", "cards", "rank_classes", 900, 20000,
     {"descriptions": 400, "classes_named": 150000, "ranks_refused": 1000},
     "As C17; class names, the evaluator's printed order and probabilities are compared "
     "with exact counts. Distinct by deck and order.", DECK_TRUST)

prop("C20", "whole", "probabilities", 800, 40000,
     {"probabilities": 300, "probabilities_before_the_last_card": 60,
      "probabilities_over_thousands_of_boards": 5,
      "probabilities_with_folded_seats": 60, "boards_enumerated": 3000},
     TABLE + "Win probabilities are recomputed from all boards: at every moment with up to "
     "about a thousand boards, in every 12th case at a deal with thousands to a million. Non-trivial: the outcome was open; distinct by cards and "
     "players left.", cpu=300)
prop("C22", "whole", "isolation", 1600, 25000,
     {"repeated_games": 300, "interleaved_calls": 5000, "tables_in_turns": 600,
      "tables_in_threads": 150, "thread_switches_inside_calls": 20000,
      "side_by_side_evaluations": 5000, "copies_played": 200,
      "games_in_another_process": 36, "lists_changed_afterwards": 1000},
     "A case plays a session twice from one random seed, then two to four tables with "
     "prepared decks one after the other, call by call in turns, and (every twelfth case) in threads "
     "switched between any two lines of clubs at random, and uses several "
     "evaluators side by side. It copies a table in mid-hand and plays "
     "both on. Every 101st case plays a dozen games once more in another process. Distinct by the last results.", TABLE_TRUST)
prop("C24", "whole", "inert", 4000, 40000,
     {"games_compared": 500, "looks_str": 1000, "looks_render": 1000, "looks_odds": 300,
      "looks_repr": 1000, "looks_deck": 1000, "looks_evaluator": 1000},
     "A case plays a session from one random seed plainly and again with printing, text "
     "rendering, win probabilities and string conversions between the calls. Distinct by the "
     "last result.", TABLE_TRUST)
prop("C29", "whole", "refusals", 5000, 30000, {"refusals": 5000, "valid_accepted": 500, "refused_in_game": 2000, "disturbed_games": 100,
     "refused_modes_beside_a_viewer": 500},
     "A case feeds one kind of invalid input (list lengths, raise sizes, deck sizes, hand "
     "sizes, orders, render modes, steps before a deal, deals without players) to a random "
     "table and tries valid use afterwards, or plays a game with and without refused calls in between. Distinct by input.", TABLE_TRUST)
prop("C31", "whole", "equivalence", 3600, 40000,
     {"spellings_compared": 500, "preset_sessions": 500, "presets_compared": 500},
     "A case plays a random table and its spelled out twin from one seed, and a session of "
     "one shipped preset under the table monitors. Distinct by the last result.")

prop("C23", "ascii", "text_view", 4500, 50000,
     {"pictures": 5000, "hidden_hands_drawn": 5000, "folded_hands_drawn": 3000,
      "hands_shown": 5000, "all_in_marks": 500, "action_lines": 3000, "win_lines": 500},
     TABLE + "Every state is printed and read back from the text. Distinct by the text.",
     TABLE_TRUST + ["at most ten seats (the drawing has ten places)"])

WEB_TRUST = ["the loopback network and process start work within 25 s",
             "the engine.io polling client in mon/props/web.py"]
prop("C25", "web", "delivery", 24, 240,
     {"states_rendered": 500, "states_delivered": 800, "late_browsers": 5, "nuisances": 30,
      "browsers_after_the_game": 15, "browsers_in_passing": 40, "browsers_in_between": 8},
     "A case starts the real web server, plays several sessions with every state (or half of "
     "them) rendered, and follows up to four (in every sixth case sixteen) long polling clients that connect at different "
     "times. In every second case other clients come and go, stall and send nonsense to both ports. Distinct by the last state of a session.", WEB_TRUST, cap=(60, 600), cpu=300)
prop("C26", "web", "page", 1200, 20000, {"pages_checked": 40, "pages_served": 20, "texts_placed": 1000},
     "A case is a table size; its drawing is parsed and checked, some as served over "
     "HTTP. Distinct by table size.", WEB_TRUST, cap=(60, 600), cpu=300)
prop("C27", "web", "script", 48, 800, {"states_shown": 2000, "cards_shown": 20000,
                                        "cards_covered": 20000},
     "A case feeds the states of random sessions to the page's script, run by node on a "
     "document model of the drawing the server delivers. Distinct by state.",
     WEB_TRUST + ["the document model in mon/dom.js", "node"], cap=(60, 600), cpu=300)
prop("C28", "web", "lifecycle", 52, 520,
     {"servers_started": 20, "closed_again": 30, "ports_reused": 15, "busy_ports_refused": 2,
      "servers_killed": 2, "programs_killed": 2, "programs_ended": 2, "viewers_behind_proxies": 2, "programs_without_libraries": 2, "table_pairs": 4, "other_hosts": 3, "taken_ports_refused": 12,
      "renderings_refused": 8},
     "A case starts servers, closes them (once, repeatedly, after a crash), reuses their "
     "ports, blocks a port, starts another on taken ports, runs two to six tables at once, lets the program of a viewer end or kills it, uses up the ports next to free ones, names a proxy, "
     "hides its libraries. Distinct by kind, host and table size.",
     WEB_TRUST, cap=(120, 600), cpu=300)
prop("C32", "viewers", "told", 6000, 80000,
     {"turns_told": 20000, "ended_hands_told": 2000, "drawn_directly": 10000,
      "careless_viewers": 5000, "descriptions_kept": 20000,
      "pauses_timed": 500, "web_pauses_timed": 20, "bare_viewers_refused": 500},
     TABLE + "A viewer of the check's own is plugged into the table and its descriptions are "
     "compared with what the calls returned; it keeps them and looks at them later again, or "
     "overwrites them, after which the table must be as before; every third case draws descriptions of random "
     "tables with the text viewer, some time the pauses of the web viewer. Distinct by description.",
     TABLE_TRUST + ["the loopback network and process start work within 25 s"], cpu=120)
