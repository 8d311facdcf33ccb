"""What each check runs. A stage is one harness crate in one build mode; `least` lists observations
without which a run gives no verdict."""

LEVEL_ASSUMPTIONS = [
    "Held on the executions that were driven and observed, which the counters describe; nothing is claimed of others.",
]
SHIM = ("The cfg crates that gearley depends on are absent from this sandbox; /verif/shims stands in for them "
        "(grammar transformations, bit matrix), and is trusted to implement the documented transformations.")
ORACLE = "The reference models in /verif/mon are trusted; they are written from the grammar formalism, not from gearley."
DOMAIN = "Grammars without derivation cycles, with at least one useful rule (see DESIGN.md for the domain)."
GRAMMARS = ("Random grammars of several styles (with empty rules, useless symbols, long rules, left/right/middle recursion, "
            "ambiguity), classic grammar families, and inputs that are sentences, mutated sentences or random tokens. ")


def native(crate, least=None, **kw):
    return dict(crate=crate, mode="native", least=least or {}, **kw)


def core(technique, note, least, rule, assumptions=None, **kw):
    return {
        "technique": technique,
        "note": note,
        "stages": [native("core", least, **kw)],
        "rule": GRAMMARS + rule,
        "assumptions": (assumptions or []) + [ORACLE, SHIM, DOMAIN],
    }


NOT_APPLICABLE = {}

CHECKS = {
    "C01": core(
        "online monitor against an independent recognizer",
        "finished_node is compared after every prefix with an independent Earley recognizer (with nullable sets) over the source "
        "grammar; every input of small alphabets is enumerated for part of the grammars. Trusts that recognizer and the shims.",
        {"deeply nested inputs": 20, "parts of a C program": 6, "inputs with sets of a thousand items": 6, "grammars of thousands of symbols or rules": 2, "grammars with rules past sixteen bits": 40,
         "prefixes judged": 1_000_000, "sentences among prefixes": 400_000, "grammars": 40_000},
        "Each prefix is judged; nontrivial: the prefix is a sentence; distinct by grammar and input."),
    "C02": core(
        "online monitor against an independent prefix acceptor",
        "The result of ending each location is compared with viable-prefix membership by an independent recognizer of the source "
        "grammar, also when another token is read at the same location after a rejection.",
        {"deeply nested inputs": 20, "parts of a C program": 6, "inputs with sets of a thousand items": 6, "grammars of thousands of symbols or rules": 2, "grammars with rules past sixteen bits": 40,
         "locations judged": 1_500_000, "rejections": 300_000, "tokens read in place of a rejected one": 100_000},
        "Each ended location is judged; nontrivial: an input with a rejection or with several locations; distinct by grammar and input."),
    "C03": core(
        "differential event-log monitor (with and without hints)",
        "Parses with truthful hints are compared with parses without hints: acceptance, error positions and derivation counts, at every location.",
        {"deeply nested inputs": 20, "parts of a C program": 6, "inputs with sets of a thousand items": 6, "grammars of thousands of symbols or rules": 2, "grammars with rules past sixteen bits": 40,
         "hints given": 400_000, "sentences": 80_000, "rejections": 25_000, "rejections one token earlier": 10_000},
        "Each input is read twice; distinct by grammar and input."),
    "C04": core(
        "online monitor against an independent Earley item-set model",
        "The progress report is compared after every token with the item sets of an independent Earley recognizer: soundness for "
        "every grammar, completeness (equality) for grammars without empty rules; predicted terminals are compared exactly for all. "
        "One recorded finding: expected_terminals.",
        {"deeply nested inputs": 20, "parts of a C program": 6, "inputs with sets of a thousand items": 6, "grammars of thousands of symbols or rules": 2, "grammars with rules past sixteen bits": 40,
         "reports judged": 300_000, "complete reports judged": 150_000, "partial matches judged": 1_000_000, "predictions judged": 800_000},
        "Each location's report is judged; distinct by grammar and prefix."),
    "C05": core(
        "differential event-log monitor (reset against new)",
        "A recognizer that is reset at random moments is compared, event by event, report by report, with a new one on the same input.",
        {"deeply nested inputs": 20, "parts of a C program": 6, "inputs with sets of a thousand items": 6, "grammars of thousands of symbols or rules": 2, "grammars with rules past sixteen bits": 40,
         "resets in the middle of a group": 15_000, "values after resets compared": 30_000,
         "resets": 80_000, "locations compared": 600_000, "forest events compared": 3_000_000},
        "Each input after a reset is compared; distinct by grammar and inputs."),
    "C06": core(
        "conservation monitor on a recording forest, against a derivation counter",
        "Token lattices: acceptance and derivation counts and trees are compared with an independent counter on the lattice, and "
        "between orders of the alternatives.",
        {"grammars of thousands of symbols or rules": 2, "grammars with rules past sixteen bits": 40,
         "locations with several tokens": 80_000, "derivation counts compared": 60_000, "derivation trees compared": 80_000,
         "orders compared": 60_000},
        "Each lattice is judged; distinct by grammar and lattice."),
    "C07": core(
        "differential event-log monitor (by hand against automatic), with a derivation counter for omissions",
        "Completion groups driven by hand are compared, event by event, with automatic completion; with groups or items left out, "
        "the rest is compared with the derivations that an independent counter finds without them.",
        {"grammars of thousands of symbols or rules": 2, "grammars with rules past sixteen bits": 40,
         "groups driven by hand": 500_000, "groups left out": 15_000, "derivation counts compared": 60_000,
         "locations judged with items left out": 150_000,
         "groups abandoned after an item": 8_000, "values with items left out": 60_000},
        "Each input is driven by hand; distinct by grammar, input and omissions."),
    "C08": core(
        "differential event-log monitor (configurations)",
        "The same input is read with many capacities, policies and forests; acceptance, error positions and, for equal forests, the "
        "whole event logs must be equal.",
        {"grammars of thousands of symbols or rules": 2, "grammars with rules past sixteen bits": 40,
         "runs compared": 400_000, "forest events": 3_000_000},
        "Each input is read in eleven configurations; distinct by grammar and input."),
    "C09": core(
        "online protocol monitor of completion groups",
        "Groups are judged as they are handed out: origins never rise, one symbol and origin, items against the item sets of an "
        "independent recognizer, nothing twice. Symbols that the grammar compiler generates may come twice (counted).",
        {"deeply nested inputs": 20, "parts of a C program": 6, "inputs with sets of a thousand items": 6, "grammars of thousands of symbols or rules": 2, "grammars with rules past sixteen bits": 40,
         "groups judged": 800_000, "items judged": 1_200_000, "sets of completed rules judged": 200_000,
         "symbols and origins judged for coming once": 400_000},
        "Each location's groups are judged; distinct by grammar and input."),
    "C10": core(
        "protocol and conservation monitor on a recording forest, against a derivation counter",
        "A recording forest checks the call protocol online and is read back: counts of derivations of every symbol and span, and the "
        "trees themselves where few, against independent dynamic programming over the source grammar.",
        {"grammars of thousands of symbols or rules": 2, "grammars with rules past sixteen bits": 40,
         "derivation counts compared": 120_000, "derivation trees compared": 150_000, "forest events judged": 5_000_000,
         "ambiguous inputs": 15_000, "finished nodes with all derivations": 100_000},
        "Each sentence is judged; nontrivial: it is a sentence; distinct by grammar and input."),
    "C11": core(
        "monitor of recorded action calls against enumerated derivations",
        "Action calls of evaluations are recorded and compared with the unique derivation (or, when only the start symbol is ambiguous, "
        "with all of them) found independently. Sentences that are ambiguous inside are a recorded finding, kept on one fixed input.",
        {"deeply nested inputs": 20, "grammars of thousands of symbols or rules": 2, "grammars with rules past sixteen bits": 40,
         "nodes of shorter sentences evaluated": 5_000, "evaluations judged": 120_000, "action calls judged": 500_000, "sentences ambiguous at the top only": 20_000},
        "Each sentence is evaluated; distinct by grammar and input."),
    "C12": core(
        "differential monitor of recorded action calls (compact against simple)",
        "Values and recorded action calls of both bocages are compared, up to the order of the alternatives of a sum, on small, "
        "many-symbol and long inputs that force every encoding width.",
        {"deeply nested inputs": 20, "grammars of thousands of symbols or rules": 2, "grammars with rules past sixteen bits": 40,
         "sentences compared": 50_000, "grammars with more than 100 symbols": 1_500, "long sentences compared": 100,
         "nodes of shorter sentences compared": 4_000, "ambiguous sentences": 5_000},
        "Each sentence is evaluated by both; distinct by grammar and input."),
    "C13": core(
        "monitor of recorded action calls against enumerated derivations",
        "Every call for an empty symbol is compared, by position, with the derivation found independently; all arrangements of empty "
        "symbols in short rules are enumerated, and the empty input is read in every way.",
        {"grammars of thousands of symbols or rules": 2, "grammars with rules past sixteen bits": 40,
         "evaluations judged": 200_000, "empty symbols evaluated": 100_000, "empty inputs": 40_000,
         "unread recognizers evaluated": 20_000, "arrangements enumerated": 2_000},
        "Each sentence of a grammar with empty rules is evaluated; distinct by grammar and input."),
    "C14": core(
        "table monitor against textbook definitions recomputed from the source grammar",
        "Every row of every table is recomputed from the compiled rules and, where it speaks of source symbols, from the source grammar.",
        {"grammars of thousands of symbols or rules": 2, "grammars with rules past sixteen bits": 40,
         "grammars": 30_000, "prediction rows judged": 300_000, "lookahead rows judged": 300_000, "FOLLOW rows judged": 80_000,
         "ways of rules judged": 300_000, "symbols judged": 400_000},
        "Each grammar is judged; distinct by grammar."),
    "C15": core(
        "round-trip monitor over tables and event logs",
        "Copies through serde_json and miniserde are compared table by table and, on inputs, event by event. Trusts both libraries.",
        {"grammars of thousands of symbols or rules": 2, "grammars with rules past sixteen bits": 12,
         "copies compared": 30_000, "parses compared": 80_000, "table lines compared": 1_000_000},
        "Each grammar is copied three ways; distinct by grammar."),
    "C16": {
        "technique": "reference-model monitor over recorded operation histories",
        "note": "Every public operation of random, huge and exhaustively enumerated short histories is compared with a list-of-lists model, with ownership balances for element drops; trusts the model.",
        "stages": [native("vec2d", {"operations": 100_000, "states compared": 100_000, "truncations to an earlier set": 10_000,
                                      "ownership balances checked": 10_000, "huge histories": 16})],
        "rule": "Random histories of operations on several element types and small exhaustive ones, each applied to the "
                "real structure and to a sequence-of-sequences model; nontrivial: at least one set was completed; "
                "distinct by the hash of the operations.",
        "assumptions": [ORACLE],
    },
    "C17": {
        "technique": "round-trip monitor with a reference model",
        "note": "Contents are compared with the model after a round trip through two serializers, and under further operations; trusts serde_json and miniserde.",
        "stages": [native("vec2d", {"round trips": 10_000, "huge round trips": 4})],
        "rule": "Random contents, serialized and read back through serde_json and miniserde, then mutated further next "
                "to the original; nontrivial: not empty; distinct by the hash of the content.",
        "assumptions": [ORACLE],
    },
    "C18": {
        "technique": "reference-model monitor (odometer) over operation histories",
        "note": "Every combination is compared by value and by address with an odometer; small shapes and constructions are enumerated completely; long factors (past 65,536 elements) and products of hundreds of factors are swept too.",
        "stages": [native("cart", {"advances": 1_000_000, "complete sweeps": 10_000, "enumerated constructions": 1000, "large products": 20, "products of many factors": 200})],
        "rule": "Every product of few small factors built by every mix of pushes and extensions, and random histories over "
                "five element types; each advance is compared with an odometer; distinct by the hash of the history.",
        "assumptions": [ORACLE],
    },
    "C19": {
        "technique": "Miri and AddressSanitizer over driven executions",
        "note": "Only the instrumentation judges: Miri (UB, leaks aside) on small histories and parses, AddressSanitizer and std's unsafe "
                "preconditions on larger ones, of the containers, the recognizer, the bocages, the tables and their copies.",
        "stages": [
            dict(crate="cart", mode="miri", only_sanitizer=True, cases=dict(quick=144, thorough=6000),
                 seconds=dict(quick=60, thorough=1500), least={"complete sweeps": 20}),
            dict(crate="vec2d", mode="miri", only_sanitizer=True, cases=dict(quick=72, thorough=4000),
                 seconds=dict(quick=60, thorough=1500), least={"operations": 1000}),
            dict(crate="cart", mode="asan", only_sanitizer=True, cases=dict(quick=20_000, thorough=400_000),
                 seconds=dict(quick=60, thorough=600), least={"complete sweeps": 1000}),
            dict(crate="vec2d", mode="asan", only_sanitizer=True, cases=dict(quick=20_000, thorough=400_000),
                 seconds=dict(quick=60, thorough=600), least={"operations": 100_000}),
            dict(crate="core", mode="asan", only_sanitizer=True, cases=dict(quick=16_000, thorough=400_000),
                 seconds=dict(quick=90, thorough=900), least={"grammars compiled": 1000, "locations read": 10_000, "action calls": 10_000}),
            dict(crate="core", mode="miri", only_sanitizer=True, cases=dict(quick=64, thorough=1600),
                 seconds=dict(quick=60, thorough=2400), least={"grammars compiled": 8}),
        ],
        "rule": "Small and large random histories of the containers, and complete parses with both bocages, resets, alternatives, "
                "hints, completions by hand, evaluation and copied tables; distinct by content.",
        "assumptions": [SHIM, "Miri with Stacked Borrows and symbolic alignment; leaks are judged by C20."],
    },
    "C20": {
        "technique": "cost monitor: counted forest calls, metered allocation and thread CPU time against bounds and growth rates",
        "note": "Retained bytes of list parses, work and memory growth over doubling inputs, a bound from the rules and the length on every "
                "random parse, and allocation balance after dropping. Bounds are generous where constants are concerned.",
        "stages": [native("core", {"sentences measured": 60, "list elements read": 100_000, "parses measured for leaks": 5_000,
                                     "locations bounded": 8_000, "action calls of deep derivations": 100_000,
                                     "reset recognizers measured": 2_000})],
        "rule": "Lists, linear grammars and ambiguous grammars at growing sizes; random grammars and inputs against a bound from the "
                "count of rules and locations; distinct by grammar and input.",
        "assumptions": [SHIM, ORACLE, "The counting allocator sees every allocation of the process."],
    },
    "C21": core(
        "crash and hang monitor over driven executions",
        "Every call must return: panics are caught and CPU time per case is limited, over parse helpers, rejected tokens, empty "
        "inputs, tokens of useless symbols, evaluation, questions at every point of a parse. One recorded finding: derivation cycles.",
        {"grammars of thousands of symbols or rules": 2, "grammars with rules past sixteen bits": 40,
         "calls of parse": 80_000, "questions in the middle of a parse": 2_000_000, "evaluations": 30_000, "finished": 40_000, "parse errors": 20_000, "unfinished": 6_000},
        "Each call sequence is judged; distinct by grammar and input."),
    "C22": core(
        "differential monitor (helper against token by token)",
        "Helpers are compared with reading tokens one at a time: kinds and positions of errors, and acceptance; unknown names first.",
        {"grammars of thousands of symbols or rules": 2, "grammars with rules past sixteen bits": 40,
         "name lists": 100_000, "texts": 100_000, "token lists": 200_000, "parse errors judged": 20_000, "unknown names": 25_000,
         "texts with ambiguous characters": 25_000},
        "Each list or text is judged; distinct by grammar and input."),
    "C23": core(
        "online monitor of reported events against the annotations of live dots",
        "Events and distances attached at random to dots of the source grammar are compared after every token with those of the reported "
        "items and predictions.",
        {"grammars of thousands of symbols or rules": 2, "grammars with rules past sixteen bits": 40,
         "annotated positions judged": 1_000_000, "live positions judged": 2_000_000, "partial matches judged": 1_000_000,
         "reports judged": 250_000},
        "Each location's report is judged; distinct by annotated grammar and prefix."),
    "C24": {
        "technique": "differential monitor (bundled evaluators against an independent calculator)",
        "note": "Random arithmetic texts, expressions or not, are parsed and evaluated with the bundled grammars and evaluators over both "
                "bocages, and compared with precedence climbing and with all ways to put parentheses.",
        "stages": [native("core", {"bundled inputs": 3, "precedenced expressions evaluated": 80_000, "ambiguous expressions evaluated": 60_000,
                                   "texts that are no expressions": 15_000})],
        "rule": "Random expressions (numbers of 1 to 9 digits, up to 30 operators, parentheses) and mutated texts; each text is judged; "
                "distinct by text.",
        "assumptions": [ORACLE, SHIM, "Leaves are given to the bundled evaluators by the symbols of their grammar (bocages use internal ones)."],
    },
    "C25": {
        "technique": "differential monitor (the recognizer and helpers compiled with logging against those without)",
        "note": "The crates are compiled twice, without and with their log feature, and driven side by side over the same calls, with a "
                "logger that formats every record and with none; forest events, reports, answers and debug output have to be equal.",
        "stages": [native("log", {"records of parsing": 4_000_000, "records of compiling": 800_000, "records of helpers": 10_000_000,
                                  "grammars compiled with logging": 30_000, "observations compared": 2_500_000,
                                  "locations with logging": 300_000, "sequences with a reset": 10_000,
                                  "calls of helpers compared": 600_000})],
        "rule": GRAMMARS + "Sequences of calls with several tokens at a location, true and false hints, reports, completions driven by hand, "
                "calls after errors, and resets; each sequence is judged; distinct by grammar and input.",
        "assumptions": [SHIM],
    },
    "C26": {
        "technique": "interleaving monitor (schedules of calls, nested callbacks and threads against each parse on its own), with Miri's race detector",
        "note": "Up to four parses, with recording forests and both bocages, are advanced in random orders of their calls, inside of each other's "
                "forest calls and user actions, and in threads that also compile grammars; every transcript has to be what the parse gives on "
                "its own, whose acceptance is judged by an Earley parser. Small cases run under Miri, for data races.",
        "stages": [native("core", {"switches between parses": 700_000, "parses inside of calls of other parses": 200_000,
                                    "parses in threads": 60_000, "grammars compiled in threads": 10_000, "tokens judged": 200_000}),
                   dict(crate="core", mode="miri", cases=dict(quick=24, thorough=1200), seconds=dict(quick=60, thorough=1500),
                        least={"parses in threads": 8})],
        "rule": GRAMMARS + "Two to four parses over one or two grammars; each schedule is judged; distinct by parses and schedule.",
        "assumptions": [SHIM, ORACLE, "Threads are scheduled by the system, and by Miri with a seeded scheduler; schedules are sampled."],
    },
}
