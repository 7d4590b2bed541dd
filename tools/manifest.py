import json,sys
sys.path.insert(0,'/verif')
sys.dont_write_bytecode=True
import mon.plan as plan
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
T={
'C15':'statistical monitor over recorded shuffles (chi square)',
'C16':'exhaustive runtime monitor of card construction and operators',
'C17':'runtime differential monitor against a reference hand ranking',
'C18':'runtime differential monitor over enumerated legal hands',
'C19':'runtime differential monitor against exact hand counts',
'C20':'runtime monitor recomputing win probabilities from the rules',
'C22':'twin runs and interleaved call schedules, compared call by call',
'C24':'twin runs with and without looks, compared call by call',
'C31':'twin runs of both spellings, compared call by call',
'C23':'trace monitor reading every printed table back',
'C25':'offline checker over messages received from the live server',
'C26':'runtime monitor of generated and served pages',
'C27':'runtime monitor of the page script run on recorded states',
'C28':'fault injection and monitoring of server processes and ports',
'C29':'runtime monitor of refusals under hostile input',
'C32':'trace monitor plugged in as a viewer, and reading drawn descriptions back',
'C14':'model based trace monitor of deck operations',
}
checks=[]
for o in props:
    pid=o['id']; s=plan.PROPS[pid]
    checks.append(dict(property=pid,quick_cmd=f'python3 check.py {pid}',thorough_cmd=f'VERIF_TIER=thorough python3 check.py {pid}',
      evidence_file=f'evidence/{pid}.json',
      technique=T.get(pid,'online trace monitor against a reference model of the table'),
      level='exploration',
      level_note=('Every execution of the real code under the generated workload is judged; nothing is claimed beyond the executions counted in the evidence'
        +(' (the space is finite and run completely)' if s.get('exhaustive') else '')+'. Trusts: '+'; '.join(s['assumptions'])+'.')))
json.dump(dict(version=1,setup_cmd='python3 setup_check.py',checks=checks,not_applicable=[],
  notes='No hooks in /repo: the monitors observe public calls, public attributes, printed tables, HTTP, socket and process state.'),
  open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write('\n')
FIX={'8915ae2':('C12','antes and blinds larger than the stack of the player posting them made stacks negative'),
'4fb838d':('C10','a street did not end when the only players without a turn were all-in'),
'af0fc3a':('C04','odd chips went to the wrong winner, counted from seat 0 or given several times'),
'007c5f8':('C11','steps after a fold-out reported a payout of zero for the winner'),
'48bdf23':('C02','folded players got chips back at showdown when they had put in more than the players left'),
'3569a11':('C06','minimum raises of a street followed the largest raise of the street before'),
'2fc3342':('C23','a negative bet that became a check was shown as a fold, a too small bet that became a fold was not'),
'875990c':('C07','bets between minimum and maximum raise were moved to another size'),
'86cffd6':('C06','pot limit offered a minimum raise above the maximum'),
'9ce8789':('C08','calls at least as large as the last raise counted as raises'),
'eb7feee':('C29','a refused deal changed the players in the hand'),
'7d98181':('C31',"float('inf') as raise size was refused although documented"),
'88390ef':('C21','observations changed with later calls, and changing them changed the table'),
'2da74be':('C14','a fully prepared deck came out in another order'),
'fb34f6f':('C28','the server listened on 127.0.0.1 whatever host was asked for'),
'1f19c41':('C08','fixed raises smaller than the big blind were not counted'),
'a219fe0':('C19','hand counts with more cards to choose than there are were wrong'),
'a4d7c10':('C19','straights in decks of few ranks were miscounted'),
'e0daa72':('C17','straight flushes were not ranked in decks where every flush is a straight'),
'0f533b4':('C17','custom orders failed in decks where a hand in the order is impossible'),
'eed33f4':('C29','orders with repeated or missing hands were accepted'),
'35c8f31':('C19','suited high cards were not counted in hands too small for a flush'),
'ac5b7af':('C28','a server process was left behind when the viewer could not start'),
'f9c82c9':('C03','players without a stake in a pot shared it at showdown'),
'fc4039f':('C23','a hand was drawn as ended, showing all cards, when everybody was all-in from the forced bets'),
'8aac747':('C28','a viewer on ports in use attached itself to the server of another viewer or waited forever'),
'43869eb':('C28','a server whose program was killed stayed behind and kept its ports'),
 '4e6eaff':('C07','fractional bets were rounded to whole chips first and then to an amount that was not the nearest, half chips up'),
 'fe9c35d':('C26','the pot of a web table without board cards was cut off to a strip of ten units, too narrow for any amount'),
 'af14012':('C16','the long s (U+017F) was accepted as the suit of spades'),
 'f1a7265':('C32','the lists of a description handed to a viewer were those of the table: they changed later, and changing them changed the game'),
 'efcc5b9':('C22','a table shared the lists of blinds, antes and board cards with the configuration it was built from'),
 '4a2ed0f':('C29','an unknown render mode was accepted by a table that had a viewer'),
 'e492527':('C28','a program that ended without closing its web table never ended'),
 '8c047e9':('C25','the connection to the server could be one of the program to itself (about 1 of 50 starts without a given port): nothing rendered was shown'),
 '3a4a4d2':('C28','a viewer without a given port chose a free one without looking at the next one, which it needs too'),
 '04089d7':('C28','a web table did not open if the environment named a proxy')}
what='a deck of 3 suits ranked by rarity counts too few three of a kind (by 3^(n-3) for n=4,5 card hands), so the category is ranked and described too rare; pinned by test/test_poker/test_evaluator.py (order of Evaluator(3, 13, 5))'
json.dump({'findings':[{'id':'trips-in-3-suit-decks','property':p,'what':what} for p in ('C17','C19')],
 'fixed':[f'fixed: property={p} {h} {w}' for h,(p,w) in FIX.items()]},open('/verif/KNOWN_FINDINGS.json','w'),indent=1); open('/verif/KNOWN_FINDINGS.json','a').write('\n')
