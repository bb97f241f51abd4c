"""writes MANIFEST.json"""
import json

CLAIMED = {}


def claim(p, technique, note, level="proof"):
    CLAIMED[p] = (technique, note, level)


DED = ("contracts on the real Dealer methods, verification conditions generated from /repo's source "
       "and discharged by z3/cvc5 for every table size; ")
NOTE = ("Proof for all states of the class invariant, all configurations (2-10 players, any number of streets, "
        "any chips) and all bets. quick: every seat at 2-6 players and one seat each at 7-10 (reset: 2-4 and a "
        "case each at 5, 6, 8, 10), thorough: all. Assumes integers, trusts the verifier pyvc, the solvers and the "
        "listed contracts of Deck and Evaluator (themselves checked by C12, C14, C15). A bounded native search "
        "runs beside the proof.")
for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C19", "C20", "C22"):
    claim(p, DED + "counter-models replayed on the real table", NOTE)

claim("C09", DED + "loop contract of the loop over the sorted hands in _eval_round", NOTE + " Division of the pot: for "
      "2-10 players the loop contract of _eval_round is inductive and implies the side pots of the specification; "
      "beside it the body is executed completely for 2-4 players and every order of hands.")

CARDS = ("contracts on Card, Deck and their module functions; verification conditions generated from /repo's "
         "source and discharged by z3; every deck shape and spelling, symbolic cards and permutations")
claim("C12", CARDS, "Proof for every deck shape (1-4 suits, 1-13 ranks), every arrangement random.shuffle can leave "
      "and the listed histories of trick/untrick/shuffle/draw; lists of cards are symbolic. Longer histories: "
      "class invariant of the deck plus bounded native search.")
claim("C13", CARDS, "Proof for all 208 spellings, all characters and all pairs of cards.")
EV = ("contracts on LookupTable, Evaluator and _lookup functions; verification conditions generated from /repo's "
      "source and discharged by z3; finite tables compared entry by entry with the oracle; ")
claim("C14", EV + "all 520 deck shapes", "Proof: tables, class order, lookup and evaluate are each verified against "
      "their contract; callers only see contracts. specs/poker.py is the oracle.")
claim("C15", EV + "loop contract on the combinations", "Proof for hands of 1-5 cards, any number of hole and "
      "community cards, any mandatory number (running-minimum loop contract, unbounded).")
claim("C16", EV + "all 520 deck shapes, symbolic order of classes", "Proof, with one recorded finding: three-suit "
      "decks with hands of four or five cards count three of a kind wrongly.")

claim("C17", "contract of Dealer.win_probabilities with a loop contract over all run-outs; verification conditions "
      "from /repo's source, discharged by z3; quick and thorough: 2-10 players", "Proof for any board, any deck and "
      "any cards (one arbitrary run-out stands for all); division is taken as exact.")
claim("C18", "contract of Dealer.__init__ (check_inp, clean_rs, constructors of Deck and Evaluator); verification "
      "conditions from /repo's source, discharged by z3", "Proof for lists of any length and values of every kind, "
      "all combinations of value/list forms (quick: 12 of 32 for 4-9 players).")
claim("C21", "contracts of ASCIIViewer, str(dealer) and dealer.render executed symbolically down to the text, which "
      "is read back; verification conditions from /repo's source, discharged by z3", "Proof for 2-10 players, every "
      "player to act and finished hands, any chips and cards. _eval_round by its contract (C09).")
claim("C23", "contracts of GraphicViewer.render, _jsonify and _convert_hands (loop over cards by a verified append "
      "invariant, any length); verification conditions from /repo's source, discharged by z3",
      "Proof for tables of 0-12 and 20 hands, hands and boards of any length, any chips. Only what is handed to the "
      "connection is specified.")
claim("C24", "contracts of _SVGElement and _SVGPoker executed symbolically on a tree of elements (loops over players "
      "and cards by a verified append invariant); verification conditions from /repo's source, discharged by z3",
      "Proof for any number of players, hole cards and community cards. ElementTree by trusted contract; layout "
      "numbers are arbitrary. Bounded native search over table sizes runs beside it.")

claim("C26", "contract of Deck.shuffle and Deck.__init__ with a relational obligation (two draws of random.shuffle that "
      "differ give different orders); verification conditions from /repo's source, discharged by z3",
      "Proof for every deck shape and the listed histories, from the trusted contract that random.shuffle draws every "
      "arrangement with equal probability. Statistical native search beside it.")

claim("C27", "contracts of _RoundedRectangle.edge (points of the outline over the reals, sine and cosine by identities) and "
      "_SVGPoker (places of all players by the append invariant of its loops, edge by contract); verification "
      "conditions from /repo's source, discharged by z3", "Proof over real numbers for every rectangle at least as wide "
      "as high, every fraction and any number of players; the deviation of floating point is covered only by the "
      "native runs. An alarm always comes with a failing input.")

claim("C25", "contracts of GraphicViewer.__init__, close, __del__ and _run_flask over recorded effects of the libraries; "
      "invariant of the receiving loop (nothing received or a last state), verified by rounds from both with states the "
      "code can not look into; verification conditions from /repo's source, discharged by z3 and simplification",
      "Proof for every history of states and idle rounds, any host and port, from trusted contracts of flask, "
      "flask_socketio, gevent and multiprocessing; retries while connecting are bounded (0-2 refusals, or always). "
      "Bounded native runs with the real process and polling browsers beside it.")

NA = {
}


def main():
    checks = []
    for p in sorted(CLAIMED):
        t, n, l = CLAIMED[p]
        checks.append({
            "property": p, "quick_cmd": "python3-vt checks/run.py %s quick" % p,
            "thorough_cmd": "python3-vt checks/run.py %s thorough" % p,
            "evidence_file": "evidence/%s.json" % p, "technique": t, "level": l, "level_note": n})
    props = [json.loads(l)["id"] for l in open("properties.jsonl")]
    na = [{"property": p, "reason": NA.get(p, "check not built yet")} for p in props if p not in CLAIMED]
    json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na},
              open("MANIFEST.json", "w"), indent=1)


main()
