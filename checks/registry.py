"""What decides each property: proof tasks, bounded native jobs, trust."""

TABLE_TRUST = [
    "contracts of Deck.draw / Deck.shuffle used by callers are those verified by C12",
    "contract of Evaluator.evaluate used by callers (a rank between 0 and max_rank that depends on the cards only) is that of C14/C15",
    "prefix sums of num_community_cards: CC(s) = CC(s-1) + N(s), monotone (induction over streets)",
]
TABLE_ASSUME = [
    "integer bets, blinds, antes, raise sizes and stacks, none of them negative (bets may be negative)",
    "2 to 10 players (the constructor accepts no other number); loops over players are unrolled completely",
    "nobody but the table writes its attributes while a hand is running",
]
NATIVE_RULE = ("random configurations (2-10 players, 1-4 streets, all raise structures, uneven stacks, "
               "forced bets, tricked decks) and random hands on the real table; non-trivial: hands that "
               "reach a showdown")


def weight(t):
    k = t[0]
    if k in ("step", "reset", "ended"):
        return t[1] * (3 if k == "reset" else 2)
    if k == "showdown":
        return 60 * t[2] if t[1] == "all" else 1
    return 500 if k == "evalu" and t[1] == "order" else 50


def step_tasks(props, ns, contracts=True):
    return [("step", n, a, props) for n in ns for a in range(n)]


def reset_tasks(props, ns):
    from pyvc.dealer import reset_cases

    out = []
    for n in ns:
        for rb in (False, True):
            for rs in (False, True):
                out += [("reset", n, rb, rs, props, c) for c in reset_cases(n, rb, rs)]
    return out


def table(prop, tier, seed, step=True, reset=True, ended=False, extra=False, props=None, nquick=None):
    quick = tier == "quick"
    tasks = []
    allp = [prop]
    if step:
        tasks += step_tasks(allp, range(2, 11) if not quick else [2, 3, 4, 5, 6])
        if quick:
            for n in (7, 8, 9, 10):
                tasks.append(("step", n, (seed * 7 + n) % n, allp))
    if reset:
        tasks += reset_tasks(allp, range(2, 11) if not quick else [2, 3, 4])
        if quick:
            from pyvc.dealer import reset_cases
            for n in (5, 6, 8, 10):
                for rb, rs in ((False, False), (False, True)):
                    cs = reset_cases(n, rb, rs)
                    tasks.append(("reset", n, rb, rs, allp, cs[(seed * 13 + n) % len(cs)]))
    if ended:
        tasks += [("ended", n, w) for n in range(2, 11) for w in ("before first reset", "after hand")]
    secs = 12 if quick else 300
    return dict(
        tasks=tasks, budget=120 if quick else 800,
        native=[dict(kind="search", module="table", props=[prop], seconds=secs, extra=extra, timeout=secs + 90)
                for _ in range(2)],
        report_kinds=("post",) if prop != "C07" else ("post", "safety"),
        replay_module="table", props=[prop], extra=extra,
        trusted=TABLE_TRUST, assumptions=TABLE_ASSUME, level="proof", rule=NATIVE_RULE, ground=False)


def showdown(prop, tier, seed):
    import random
    from pyvc.showdown import ranked_cases

    d = table(prop, tier, seed, reset=False)
    quick = tier == "quick"
    for n in (2, 3, 4):
        cs = ranked_cases(n)
        if quick and n == 4:
            cs = random.Random(seed).sample(cs, 20)
        d["tasks"] += [("showdown", "ranked", n, s, o) for s, o in cs]
    d["tasks"] += [("showdown", "all", n) for n in range(2, 11)]
    d["tasks"] += [("showdown", "perm", n, i) for n in range(2, 11) for i in range(n - 1)]
    d["trusted"] = d["trusted"] + [
        "sorted returns a permutation of the list, ascending by the key",
        "exchanges of neighbours generate all permutations (the side pots of the specification do not depend "
        "on the seats: verified for every exchange)"]
    return d


def bounded(prop, tier, seed, jobs, rule, tasks=(), trusted=(), assumptions=(), level="exploration",
            ground=False, quick_s=15, thorough_s=400, explanation=None, report_kinds=("post",)):
    """natives of any kind, run next to proof tasks if there are any"""
    quick = tier == "quick"
    secs = quick_s if quick else thorough_s
    native = [dict(j, props=[prop], seconds=secs, timeout=secs + 120) for j in jobs]
    return dict(
        tasks=list(tasks), budget=(120 if quick else 800), native=native, report_kinds=report_kinds,
        replay_module=jobs[0]["module"] if jobs else "table", props=[prop], extra=False,
        trusted=list(trusted), assumptions=list(assumptions), level=level, rule=rule, ground=ground,
        explanation=explanation)


def parts(n, **job):
    return [dict(job, parts=n, part=k) for k in range(n)]


def evaluator(prop, tier, seed):
    quick = tier == "quick"
    tasks = [("evalu", "init")] + [("evalu", "lookup", k) for k in range(1, 6)]
    if prop == "C15":
        tasks += [("evalu", "evaluate", k, m) for k in range(1, 6) for m in range(k + 1)]
        jobs = parts(3 if quick else 6, module="evaluator", kind="combos")
        rule = "random deck shapes, orders, hole and community cards against the best of all legal combinations"
    else:
        tasks += [("evalu", "order", how, (j, 3)) for how in ("default", "custom") for j in range(3)]
        tasks += [("evalu", "reject")]
        tasks += [("evalu", "tables", s, r, k, low) for s in range(1, 5) for r in range(13, 0, -1)
                  for k in range(5, 0, -1) for low in (True, False)]
        jobs = parts(2 if quick else 6, module="evaluator", kind="tables",
                     full=100000000 if prop == "C14" else 0, orders=1 if quick else 6)
        jobs += [dict(module="evaluator", kind="orders")]
        rule = ("all deck shapes, hand sizes and straight options with the default order (all hands), "
                "random custom orders (all or sampled hands)")
    return bounded(prop, tier, seed, jobs, rule, tasks=tasks, level="proof", quick_s=10,
                   trusted=["itertools.combinations and product enumerate exactly the combinations and pairs; "
                            "sorted returns the elements in ascending order of the key",
                            "different multisets of at most five of the thirteen primes have different products "
                            "(unique factorisation); the minimum over a larger family of hands is not larger",
                            "specs/poker.py: the classes and keys of hands by the rules (the oracle)",
                            "the value of a card has the layout proved by C13"],
                   assumptions=["decks of 1-4 suits and 1-13 ranks, hands of 1-5 cards (all 520 combinations with "
                                "the straight option are verified one by one), different cards in a hand, "
                                "0 <= mandatory hole cards <= hand size",
                                "three-suit decks with four or five card hands: the counts of three of a kind are "
                                "those of the recorded finding"] if prop != "C15" else
                               ["different cards; 0 <= mandatory hole cards <= hand size"])


def text_tasks(ns, which=("table", "dealer")):
    out = []
    for n in ns:
        for a in range(-1, n):
            if "table" in which:
                out.append(("text", "table", n, a))
            if "dealer" in which:
                out.append(("text", "dealer", n, a, False))
                if a >= 0:
                    out.append(("text", "dealer", n, a, True))
    return out


def get_other(prop, tier, seed):
    quick = tier == "quick"
    if prop == "C12":
        ops = ["shuffle", "trick shuffle", "trick trick shuffle", "trick untrick shuffle",
               "trick shuffle shuffle", "trick untrick trick shuffle"]
        if not quick:
            ops += ["trick shuffle trick shuffle untrick shuffle", "untrick trick shuffle",
                    "trick trick trick shuffle", "shuffle trick shuffle untrick trick shuffle"]
        tasks = [("cards", "shapes", s) for s in range(1, 5)] + [("cards", "sizes",), ("cards", "draw"),
                 ("cards", "draw", True)] + [("cards", "ops") + tuple(o.split()) for o in ops]
        return bounded(prop, tier, seed, parts(4, module="cards", kind="deck_search"),
                       "all deck shapes and random sequences of draw, shuffle, trick, untrick; "
                       "non-trivial: cases in which every clause was checked",
                       tasks=tasks, level="proof",
                       trusted=["random.shuffle puts the elements of a list in some order (any permutation)",
                                "list(set) enumerates every member exactly once; set difference",
                                "the cards of one deck are told apart by their position (52 different values: C13)"],
                       assumptions=["integer sizes; draw of a non-negative number; cards given to trick are "
                                    "distinct and belong to the deck"])
    if prop == "C27":
        return bounded(prop, tier, seed, parts(3, module="rim", kind="explore"),
                       "pages of 1-30 and 40 players fitted to an outline (0.75 pixels); points of random rectangles "
                       "against the outline (0.0051)",
                       tasks=[("rim", "edge"), ("rim", "page")], level="proof",
                       trusted=["sine and cosine: addition of quarter turns, change of sign, squares add to one; pi is "
                                "between 3.14159 and 3.1416",
                                "round(v, d) is at most half a unit of the last digit away from v",
                                "float(str(v)) is v; ElementTree as in C24"],
                       assumptions=["floating point numbers are real numbers (the native runs use the real ones)",
                                    "rectangles at least as wide as high, fractions from zero up"],
                       explanation="obligations of this property are lemmas: a refuted one is reported only if the real "
                                   "code is seen to fail, because sine and cosine are known by identities only")
    if prop == "C26":
        ops = ["shuffle", "shuffle shuffle", "trick untrick shuffle", "trick shuffle untrick shuffle", "untrick shuffle",
               "trick shuffle", "trick shuffle shuffle", "trick untrick trick shuffle"]
        if not quick:
            ops += ["trick trick shuffle", "trick shuffle trick shuffle", "trick trick untrick shuffle", "shuffle untrick shuffle shuffle",
                    "trick shuffle untrick trick untrick shuffle"]
        tasks = [("cards", "shapes", s) for s in range(1, 5)] + [("cards", "ops") + tuple(o.split()) for o in ops]
        return bounded(prop, tier, seed, parts(3, module="shuffles", kind="explore", more=True),
                       "statistics (chi square, 9 standard deviations) of orders, pairs of successive orders, places, "
                       "neighbours and signs after shuffles of new, used, drawn, tricked and untricked decks and at tables",
                       tasks=tasks, level="proof",
                       trusted=["random.shuffle (and random.sample of all elements) draws every arrangement of the list "
                                "with the same probability, independently of everything that happened before",
                                "n! different arrangements that lead to n! different orders reach each order once "
                                "(counting, not checked by the solver)"],
                       assumptions=["the pseudo-random generator behind random.shuffle is taken as truly random"])
    if prop == "C13":
        tasks = [("cards", "spellings", r) for r in range(13)] + [("cards", "characters"), ("cards", "operators")]
        return bounded(prop, tier, seed, [dict(module="cards", kind="cards_complete")],
                       "all 208 spellings, all pairs of cards, all other characters up to U+07FF, sampled operands",
                       tasks=tasks, level="proof",
                       trusted=["str.upper; bit operations on unbounded integers are uninterpreted (commutative & and |)"],
                       assumptions=["two-character strings; a character counts as valid if its upper case is a "
                                    "rank or suit letter (str.upper maps U+017F to S)"])
    if prop in ("C14", "C15", "C16"):
        return evaluator(prop, tier, seed)
    if prop == "C17":
        return bounded(prop, tier, seed, parts(6, module="winprob", kind="explore"),
                       "random configurations and hands, win probabilities before every action against counting",
                       tasks=[("winprob", n) for n in range(2, 11)], level="proof",
                       trusted=["itertools.combinations enumerates every combination exactly once",
                                "the counts after the loop are the sums of what the run-outs add (the body is "
                                "verified for an arbitrary run-out); every run-out has a best hand, so they are not all zero",
                                "contract of Evaluator.evaluate: a rank between 0 and max_rank that depends on the cards only (C14, C15)"],
                       assumptions=["the deck holds the missing community cards", "division is exact (floats are not modelled)"])
    if prop == "C18":
        import itertools
        forms = ["".join(f) for f in itertools.product("sl", repeat=5)]
        some = [f for f in forms if f.count("l") in (0, 1, 4, 5)]
        tasks = [("config", n, f) for n in range(2, 11) for f in (forms if not quick or n in (2, 3, 10) else some)]
        tasks += [("cards", "sizes"), ("evalu", "init"), ("ended", 2, "before first reset"),
                  ("ended", 6, "before first reset")]
        return bounded(prop, tier, seed, parts(4, module="config", kind="explore"),
                       "all lengths of all list options, listed valid and invalid values, random configurations",
                       tasks=tasks, level="proof",
                       trusted=["contracts of Deck(...) and Evaluator(...): the obligations cards/sizes and "
                                "evalu/init of this check", "ASCIIViewer(...) does not touch the configuration"],
                       assumptions=["2 to 10 players, any positive number of streets, integers for everything but "
                                    "raise sizes and the number of raises (integers, 'inf' or float infinity); raise "
                                    "sizes are anything; booleans and integral floats are not considered"])
    if prop == "C21":
        return bounded(prop, tier, seed, parts(4, module="render", kind="ascii_search"),
                       "random table states and real hands; the text is parsed without knowledge of the code",
                       tasks=text_tasks(range(2, 11)) + [
                           ("config", n, f, True) for n in (2, 3, 10) for f in ("sssss", "lllll", "lslsl", "slsls")],
                       level="proof",
                       trusted=["contract of Dealer._eval_round used by str(dealer): pyvc/showdown.py (C09)",
                                "the reader of the text (pyvc/text.py): a number is told apart from the others by two "
                                "stand-in values, one short and one long"],
                       assumptions=["2 to 10 players; the deck is large enough; chips are integers"])
    if prop == "C23":
        return bounded(prop, tier, seed, parts(2, module="render", kind="payload_search"),
                       "random table states, empty hands and boards",
                       tasks=[("web", "payload", n, x) for n in list(range(13)) + [20] for x in (False, True)],
                       level="proof",
                       trusted=["contract of str(card): the two-character text of the card (C13)",
                                "connection.Client.send delivers the object it is given"],
                       assumptions=["tables of 0 to 12 and 20 hands; hands and board of any length; "
                                    "chips are integers"])
    if prop == "C25":
        d = bounded(prop, tier, seed, [dict(module="viewer", kind="views", count=6 if quick else 60)],
                       "viewers opened on the loopback interface, browsers played by polling clients: page, states in "
                       "order, late browser, closing; repeated up to three times before anything is reported",
                       tasks=[("serve", "server"), ("serve", "close"), ("serve", "open", True), ("serve", "open", False)],
                       level="proof",
                       trusted=["flask, flask_socketio and gevent: route, on, emit (to every connected browser, in order), "
                                "start_background_task, run (until the process ends), sleep (lets the server work)",
                                "multiprocessing: Process runs its target; terminate ends it; a connection delivers "
                                "the objects sent over it, in order; poll tells whether one is there",
                                "a port that was free a moment ago and the one after it are still free"],
                       assumptions=["the given port and the next one are free (see DESIGN.md)",
                                    "the viewer's process is not killed from outside",
                                    "an attempt to connect is refused 0-2 times, or always; what happens after one refusal "
                                    "happens after every one (bounded)"],
                       explanation="rounds of the receiving loop from its two kinds of states (nothing received, a last state) "
                                   "with states the code can not look into stand for all histories")
        d["native"][0]["timeout"] = 500 if quick else 800
        return d
    if prop == "C24":
        return bounded(prop, tier, seed, parts(6, module="render", kind="pages", all=not quick),
                       "1-12 and 20 players, 0-6 hole cards, 0-10 community cards",
                       tasks=[("page", "page")], level="proof",
                       trusted=["ElementTree: fromstring, find and findall of .//tag and .//*[@name='value'], "
                                "get, set, append, remove, deepcopy as documented; tostring writes the whole tree",
                                "decimal texts of different numbers are different",
                                "arithmetic of the layout (positions, sizes) yields some number"],
                       assumptions=["any number of players, hole cards and community cards, none of them negative"])
    raise KeyError(prop)


def get(prop, tier, seed):
    if prop in ("C01", "C02", "C03", "C05", "C06", "C08", "C11", "C20", "C22"):
        d = table(prop, tier, seed)
        if prop == "C22":
            d["tasks"] += text_tasks(range(2, 11) if tier != "quick" else [2, 3, 6, 10])
            d["native"].append(dict(module="render", kind="ascii_search", props=[prop],
                                    seconds=d["native"][0]["seconds"], timeout=d["native"][0]["timeout"]))
        return d
    if prop in ("C04", "C07"):
        return table(prop, tier, seed, reset=prop == "C07")
    if prop == "C10":
        return table(prop, tier, seed, step=False)
    if prop == "C19":
        return table(prop, tier, seed, ended=True, reset=False, extra=True)
    if prop == "C09":
        return showdown(prop, tier, seed)
    return get_other(prop, tier, seed)
