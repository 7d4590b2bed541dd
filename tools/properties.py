import json
E='clubs/poker/engine.py'; V='clubs/poker/evaluator.py'; C='clubs/poker/card.py'
G='clubs/render/graphic.py'; A='clubs/render/ascii_viewer.py'; JS='clubs/render/resources/static/parse_config.js'; CF='clubs/configs.py'
out=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=()):
    assert len(title)<=80,title
    out.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None,
                   **({'state':[dict(name=a,meaning=b,where=c) for a,b,c in state]} if state else {}))))
H=['histories','configurations','inputs']
ST=[("stacks, pot, pot_commits, street_commits","chips behind, in the middle, put in this hand, put in this street",E)]
p('C01','Chips are conserved',
 "At every moment between two calls all stacks plus the pot add up to the chips the players brought into the hand, and no stack or pot is negative. The payouts of an ended hand add up to zero, and no player wins more than the others put in or loses more than he put in.",
 H,"every table configuration, every stack distribution, every sequence of bets, across consecutive hands",
 "tests play a handful of fixed hands on shipped configurations; conservation has to survive every combination of antes, blinds, all-ins, folds and odd splits",
 [E],[("bets leave the stack and enter the pot and the commitments together","Dealer._collect_bet, Dealer._collect_multiple_bets"),("stacks receive payout plus commitment and the pot empties when the hand ends","Dealer.step"),("pots are paid until nothing is left","Dealer._eval_round")],
 ["reset() and step() results","Dealer.stacks"],ST)
p('C02','Payouts settle the hand',
 "When a hand ends each player's stack changes, relative to what he held before the hand was dealt, by exactly the payout reported to him. While it goes on, reported payouts are zero for players still in the hand and minus their contributions for players who folded. Folded players never get anything back.",
 H,"every hand on every configuration, payouts after every single bet",
 "tests compare payouts of a few scripted hands; the relation to stacks over all intermediate and final states is not asserted",
 [E],[("payouts are relative to commitments","Dealer._payouts"),("stacks are updated once, when all are done","Dealer.step")],["step() results"],ST)
p('C03','Showdowns award every pot to the best hand entitled to it',
 "At a showdown the chips are layered into main and side pots by how much each player put in over the whole hand; every layer goes to the best hand, or equally to the tied best hands, among the players left who paid for it. Chips beyond what any remaining player put in join the highest pot. A player never wins from an opponent more than he put in himself.",
 H,"every number of players, every pattern of contributions, folds, hand strengths and ties",
 "tests script a few side pots; the possible interleavings of stacks, folds and ties are unbounded",
 [E],[("cut by cut distribution from the best hand on","Dealer._eval_round"),("hand strengths of players left","Dealer._eval_hands")],["step() results at the end of a hand","hole and community cards"],ST)
p('C04','Odd chips go to the first winner after the button',
 "When a pot cannot be split evenly its winners' shares differ by less than one chip per winner and the whole remainder goes to the winner in worst position, the first one left of the button. This holds for every side pot separately.",
 H,"every button position, set of winners, number of seats and pot size",
 "tests cover one or two splits with one button position",
 [E],[("remainder to the eligible seat nearest after the button","Dealer._eval_round")],["step() results at the end of a hand"])
p('C05','An uncontested pot goes to the last player left',
 "As soon as all players but one have folded the hand is over and this player gets the whole pot, including his own unmatched bet, whatever cards are held or still to come.",
 H,"every street, number of players, order of folds, and stacks including all-in players left",
 "tests script a few fold-outs; the last player may be all-in, in a blind, or have raised, on any street",
 [E],[("single active player takes all commitments","Dealer._payouts"),("hand done with at most one active player","Dealer._done")],["step() results"])
p('C06','Offered call and raise sizes follow the limit',
 "The player to act is offered a call equal to what he is short of the largest bet, and raises that follow the street's limit: exactly the fixed size plus the call in limit games, from the last full raise (at least the big blind) to the pot after calling in pot limit, to the whole stack in no limit, all capped at his stack, and zero when raising is closed. Minimum is never above maximum.",
 H,"every limit, per-street sizes, blinds, stacks and betting history",
 "tests check the offers at a few points of shipped games; the offers depend on the whole betting history",
 [E],[("call, minimum and maximum raise","Dealer._bet_sizes"),("last full raise is recorded and reset per street","Dealer.step")],["reset() and step() observations"])
p('C07','Every bet is resolved to the nearest legal action',
 "Any finite bet, whole or not, becomes the nearest legal amount out of check or fold, call and the offered raises, the smaller of two equally near ones; legal amounts are taken as they are. A negative bet folds, or checks if there is nothing to call, and a bet nearest to nothing folds only if there is something to call. Exactly this amount moves from the player's stack to the pot and nothing else about the other players' chips changes.",
 ['inputs','histories','configurations'],"every bet value (integers, fractions, negatives, huge) at every decision of every game",
 "tests try a few bets at a few decisions; the input space is unbounded and interacts with stack and limit",
 [E],[("nearest size","Dealer._clean_bet"),("fold decision and collection","Dealer.step, Dealer._collect_bet")],["step() results before and after a bet"])
p('C08','Raises are capped and an incomplete raise does not reopen raising',
 "On a street there are never more full raises than the configured number; then only calling and folding is offered. A player who is facing less than a full raise since the last full one is not offered to raise again, and in all other cases raising is open. Blinds, calls and incomplete all-in raises do not count as raises and every street starts counting anew.",
 H,"every cap, limit, and order of calls, full raises and incomplete all-ins on every street",
 "tests cover one cap and one short all-in; the counting depends on the history of the street",
 [E],[("raise count and last full raise","Dealer.step"),("closing of raises","Dealer._bet_sizes")],["observations and the raises seen"])
p('C09','The right player acts next',
 "The turn always belongs to a player who is still in the hand and goes clockwise to the next one; before the first board the player after the blinds opens (at a table of two seats the button), on later streets the first remaining player left of the button. A folded or busted player never gets a turn, and the seat named in the observation is the one whose chips the next bet moves.",
 H,"every number of seats, busted seats, folds and button positions",
 "tests follow the turn in a few hands on two to six seats without busted players",
 [E],[("next active seat","Dealer._move_action"),("first to act","Dealer.reset, Dealer.step")],["action field of observations"])
p('C10','Streets end exactly when the betting is settled',
 "A street ends when every player left has acted and matched the largest bet or is all-in, and not before: the last raise is always answered and the big blind may raise. Each new street adds its configured number of community cards, keeps the earlier ones, and starts without bets; when at most one player left has chips the remaining streets are dealt out without asking anybody.",
 H,"every configuration of streets and boards and every betting sequence, including all-ins on any street",
 "tests follow a few betting sequences; the agreement condition depends on every seat's state",
 [E],[("agreement of the bets","Dealer._all_agreed"),("run out of the board","Dealer.step")],["community cards, commitments and turns in observations"])
p('C11','Hands end, and an ended hand stays as it is',
 "Every hand ends after finitely many bets no matter what is bet. The end is reported to all players at the same step as fold-out or showdown, with no turn, no call and no raise offered; before it a player is reported done exactly if he folded, busted or is all-in. Further bets after the end change nothing and report the same result.",
 H,"every configuration and every infinite supply of bets, including hostile ones",
 "termination and stability quantify over all continuations; tests stop each hand at its first end",
 [E],[("done vector","Dealer._done"),("no further betting after the end","Dealer.step")],["step() results during and after a hand"])
p('C12','Antes and blinds are posted by the right seats, from their stacks',
 "At a deal every player with chips posts the ante and the blind of his position, the positions being counted from the seat after the button (from the button at a table of two seats), or his whole stack if he has less; seats without chips post nothing. Blinds count as bets of the first street, antes only go to the pot.",
 ['configurations','histories'],"every ante and blind distribution, button position, stacks and busted seats",
 "tests check full stacks and small tables; short stacks and busted seats in blinds are hardly covered",
 [E],[("distribution is rolled to the button and capped at the stack","Dealer._collect_multiple_bets"),("first to act after the forced bets","Dealer.reset")],["reset() observations"])
p('C13','Cards on the table are one honest deal',
 "In every hand all hole cards, board cards and remaining deck cards are pairwise distinct and together are exactly the configured deck. Every seat gets its number of hole cards, they do not change during the hand, the board only grows, and cards leave the deck in its order, so that prepared decks deal known hands.",
 H,"every deck size, hole and board configuration, over many hands on one table, shuffled or prepared",
 "tests look at counts of a few hands; duplicates or reuse would show up only in some shuffles and streets",
 [E,C],[("deck operations","Deck.draw, Deck.shuffle"),("deal per hand and street","Dealer.reset, Dealer.step")],["hole_cards, community_cards, deck.cards of the table"])
p('C14','A deck is always its full set of cards, however it is used',
 "For every sequence of draws, shuffles and preparations a deck never loses, duplicates or invents cards: after a shuffle it holds exactly its configured ranks and suits, a draw takes the asked number from the top (all that is left if fewer), and drawn cards do not come back before the next shuffle. A deck prepared with distinct cards comes out in the prepared order after every shuffle until the preparation is removed, cards it does not have are refused, and decks do not influence each other.",
 ['inputs','histories','configurations'],"every deck size and every sequence of operations, on several decks side by side",
 "tests perform each operation once or twice; the guarantee is about all operation sequences",
 [C],[("fresh copy of the full deck on shuffle, prepared order","Deck.shuffle, Deck.trick, Deck.untrick, Deck.draw")],["draw(), shuffle(), trick(), untrick(), len(), str()"])
p('C15','Shuffles are fair and independent',
 "After a shuffle every order of the deck is equally likely, independently of earlier shuffles and of the cards drawn before. The cards below a prepared top are shuffled as fairly, and so are cards dealt at a table.",
 ['histories','configurations'],"the distribution over shuffles, for every deck size and history of use",
 "a single execution says nothing about a distribution; tests only assert that order changes",
 [C],[("shuffle","Deck.shuffle")],["orders over many shuffles"])
p('C16','A card is its rank and suit',
 "Of all two character strings exactly the 52 combinations of rank and suit are accepted as cards, in either case, and all others are refused with the documented error for the wrong part. Two cards are equal exactly if rank and suit are, a card prints as its rank and the symbol of its suit, and the number a card stands for is a one-to-one encoding that bit operations act on.",
 ['inputs'],"all two character strings and all pairs of cards",
 "tests sample cards; wrong encoding of a single card would corrupt hand ranking",
 [C],[("parsing, encoding and operators","Card")],["Card construction, ==, str(), int(), &, |, <<, >>"])
p('C17','Hands are ordered as the game defines',
 "For every deck and hand size any two hands compare by their category and then by their ranks from the most significant group on, with suits irrelevant and equal hands tying. Categories are ordered by how rare they are in that deck, or by the custom order if one is given, aces are high and also low in straights if so configured.",
 ['inputs','configurations'],"all pairs of hands of all deck sizes, hand sizes, straight rules and orders",
 "tests check class boundaries of a few decks; there are 2.6 million hands in the standard deck alone",
 [V],[("table of all hand ranks","LookupTable"),("frequencies of categories","LookupTable static methods")],["Evaluator.evaluate on complete hands"])
p('C18','The best legal hand out of hole and board cards counts',
 "A player's hand is the best of all hands of the right size that can be made from hole and board cards, where a table with mandatory hole cards counts hands with exactly that many hole cards only. The result does not depend on the order of the cards, and evaluating does not change them.",
 ['inputs','configurations'],"every split into hole and board cards, number of mandatory cards, hand and deck size",
 "tests check some hold'em and Omaha hands; the choice of cards is combinatorial",
 [V],[("enumeration of card choices","Evaluator.evaluate")],["Evaluator.evaluate"])
p('C19','Hand classes, their order and probabilities are true',
 "Every hand rank is named after the category the hand has, ranks outside the table are refused, and the evaluator lists exactly the categories possible in its deck in their order, each with the probability that a random hand belongs to it.",
 ['inputs','configurations'],"all hands and categories of all deck and hand sizes, all orders",
 "tests check the standard deck and a handful of numbers",
 [V],[("class lookup","Evaluator.get_rank_class"),("combinatorial counts","LookupTable")],["Evaluator.get_rank_class, str(Evaluator)"])
p('C20','Win probabilities are exact',
 "The win probabilities at any moment are the shares of all possible remaining boards each player left would win, ties counting for every tied winner and the whole normalised to one; folded players have none. Cards already dealt never appear on the remaining boards.",
 H,"every state of every game",
 "tests compute two or three states",
 [E],[("enumeration of the remaining boards","Dealer.win_probabilities")],["Dealer.win_probabilities"])
p('C21','An observation is a faithful snapshot for the player to act',
 "An observation states the true button, stacks, pot, bets, players left and board and the hole cards of the player to act only, consistently with each other and with the table. Observations taken earlier never change afterwards, and whatever a player does to one does not affect the game.",
 H,"every observation of every game and every later call",
 "tests compare fields right after the call; aliasing shows only when a later call or the receiver changes the object",
 [E],[("copies of the table's lists","Dealer._observation")],["observation dictionaries"])
p('C22','Games are reproducible and independent',
 "The same random seed, configuration and bets give the same game. Several tables, decks and evaluators in one process do not influence each other, however their calls interleave, in one thread or several, and playing does not change the configuration or the shipped presets, nor does a table notice what becomes of the configuration later. A copy of a table in mid-hand (copy.deepcopy, pickle; no open web table) plays on exactly as the original would, and neither notices the other.",
 ['schedules','histories','configurations'],"every interleaving of calls on several tables and every seed",
 "tests use one table at a time",
 [E,C,V,CF],[("state is per instance","Dealer, Deck, Evaluator"),("one source of randomness","Deck.shuffle")],["results of interleaved games"])
p('C23','The text view shows the table as it is',
 "The text drawing of a table shows every seat's chips and bet, the button, the pot, the board, whose turn it is, who is all-in, the last action, and at the end the winners and what they won. Hole cards are shown for the player to act and, once the hand is over, for all players left, and hidden otherwise, and each seat, card and number stands at its own place for any number of players and cards.",
 H,"every state of every game with every number of seats and cards",
 "tests compare two drawings",
 [A,E],[("table template filled per state","ASCIIViewer._parse_string"),("state handed to viewers","Dealer._render_config")],["str(Dealer), render('ascii')"])
p('C24','Looking at a game does not change it',
 "Printing a table, rendering it, asking for win probabilities, printing decks, cards and evaluators or counting the cards of a deck at any moment leaves all later results, including future shuffles, as they would have been.",
 ['histories','schedules'],"every moment of every game, every combination of looks",
 "tests never continue a game after looking and compare with one that was not looked at",
 [E,A,C,V],[("read-only views","Dealer.__str__, Dealer.render, Dealer.win_probabilities")],["results of twin games"])
p('C25','Every browser sees every rendered state',
 "Every state rendered to the web table reaches every connected browser, in the order of rendering and exactly as it was, whether the browser was there from the start or came later. A browser that connects late is shown the latest state at once, and clients that leave, stall or send nonsense change nothing for the others.",
 ['schedules','histories','configurations'],"every timing of renders and connections, several browsers, every game",
 "tests start the server and send one state; delivery depends on timing and order of connections",
 [G,E],[("state sent to the server process","GraphicViewer.render"),("broadcast and replay to new connections","GraphicViewer._run_flask")],["messages received by clients"])
p('C26','The web page has a place for everything on the table',
 "For every number of players, hole cards and board cards the served page is well formed and contains exactly one distinct element for every seat, stack, bet, hole card, board card, button and the pot, covered and empty at first. Seats surround the table symmetrically with the bets in front of them and their cards in them; nothing is hidden, no card or number is cut off, every stack, bet and the pot has room to be read, and up to ten seats with up to four hole cards, their bets and the board do not cover each other.",
 ['configurations'],"every table size",
 "tests only check that the page is served",
 [G],[("generation of the drawing","_SVGPoker, _SVGElement")],["the page served over HTTP"])
p('C27','The page shows the latest state it was told',
 "After any sequence of states the page shows exactly the last one: stacks, bets, pot, button and turn of every seat, the cards of the players left and covered cards for the others, and the board dealt so far, each card with its rank and the symbol and colour of its suit. Nothing of earlier states stays behind.",
 ['histories','configurations'],"every sequence of states for every table size",
 "there are no tests of the page's script",
 [JS,G],[("update of the drawing","functions of parse_config.js")],["the page's document after each message"])
p('C28','A web table serves while open and leaves nothing behind',
 "An open viewer serves its page on the announced address and only there, next to any number of other viewers. After closing it, once or repeatedly, even if its server died before, no process and no listening port is left and the ports can be used again; a viewer that cannot start, because its ports are taken or its libraries are missing for example, fails with the documented error, does not disturb others and leaves nothing behind. A viewer that may use any port finds free ones, and proxies named by the environment do not matter. If the program a viewer belongs to ends or is killed, its server ends as well, and an open viewer keeps no program from ending.",
 ['fault_sequences','schedules','configurations'],"every order of opening, closing, crashes and port conflicts",
 "tests open and close one viewer without faults",
 [G],[("server process and its control connection","GraphicViewer.__init__, close, _run_flask"),("waiting for the server","_test_socket_conn, _test_flask_conn")],["processes, ports, HTTP answers"])
p('C29','Invalid use is refused and harmless',
 "Configurations with wrong list lengths, raise sizes, deck, hand or card numbers or hand orders, unknown render modes, bets before the first deal and deals without two players with chips are refused with the documented errors, and valid ones are not. A refused call leaves the table as it was and usable, in the middle of a hand too.",
 ['inputs','histories'],"every invalid value at every moment",
 "tests try one or two invalid values each on fresh objects",
 [E,V,C,'clubs/error.py'],[("validation","Dealer.__init__, Evaluator.__init__, LookupTable.__init__, Deck.__init__, Dealer.reset, Dealer.step, Dealer.render")],["exceptions and the table afterwards"])
p('C30','Tables go on from hand to hand',
 "From one hand to the next the button moves one seat on, or to the first seat if asked, stacks carry over or return to the starting stack if asked, and everybody with chips is dealt in; busted seats stay out until they get chips again. A table can be played on, without growing, until only one player has chips, and only then a deal is refused.",
 ['histories','configurations'],"every sequence of hands, with and without the reset options",
 "tests play one or two hands per table",
 [E],[("start of a hand","Dealer.reset")],["observations of consecutive hands"])
p('C31','Short spellings and presets mean the same game',
 "A single value for blinds, antes, raise sizes, raise numbers or board cards means the same as its list, and 'inf' the same as infinity: games from both spellings are identical under the same seed and bets. Every shipped preset is a playable table of the game, size and limit its name says, and presets of one game differ in the number of seats only.",
 ['configurations','histories'],"every configuration and all presets, over whole games",
 "tests construct configurations but do not compare games",
 [E,CF],[("expansion of single values","Dealer.__init__"),("presets","configs")],["games from both spellings"])
p('C32','Any viewer is told the table as it is',
 "A viewer of one's own, plugged into a table, is handed at every rendering exactly one description in the documented form that agrees with the game: turn, players left and all-in, button, board, everybody's hole cards, pot, what was won, last action, bets of the street, stacks, and whether the hand is over. The description belongs to the viewer: it stays as it is when the game goes on, and the game stays as it is whatever the viewer does to it. The viewer a table has stays and gets the pause asked for. The text viewer draws any description, of a running game or not, as it is, and the built-in viewers wait as long as asked after drawing.",
 H,"every state of every game, and every description a program may hand to the text viewer",
 "tests call built-in viewers with a few descriptions and never plug in a viewer of their own",
 [E,'clubs/render/viewer.py',A,G],[("state handed to viewers","Dealer._render_config, Dealer.render"),("base class of viewers","PokerViewer")],["what the viewer's render() receives", "printed tables", "duration of render()"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(o,ensure_ascii=False)+'\n' for o in out))
import re
for o in out:
    n=len(re.findall(r'[.!?](\s|$)',o['statement']))
    if n>3: print(o['id'],n)
