"""Hypothesis strategies for everything the reference model can say."""
from hypothesis import strategies as st

from pbt import dictionary


def text(alphabet, min_size=0, max_size=None):
    """Text of some characters (a plain alphabet would have Hypothesis work out all of Unicode)."""
    return st.lists(st.sampled_from(sorted(set(alphabet))), min_size=min_size, max_size=max_size).map("".join)


@st.composite
def _weighted(draw, which, strategies):
    return draw(strategies[draw(which)])


def weighted(*choices):
    """One of some (weight, strategy) pairs; one_of drops repeats and splits what is nested in it."""
    strategies = [strategy for _, strategy in choices]
    which = st.sampled_from([i for i, (weight, _) in enumerate(choices) for _ in range(weight)])
    return _weighted(which, strategies)


def hinted(usual, *hints, usually=6):
    """
    What is usual, and some of the hints (values, or strategies of them) where there are any.

    Hints come from the dictionary of the code under test. It is empty on the tree these
    generators were written for, which leaves the usual strategy as it is.
    """
    hints = [x for x in hints if x is not None and x != []]
    if not hints:
        return usual
    return weighted((usually, usual), (2, st.one_of([st.sampled_from(x) if isinstance(x, list) else x for x in hints])))


def _around(words: list) -> list:
    """Words, in other cases, and as parts of other words."""
    found = {x for w in words for x in (w, w.upper(), w.lower(), w.title(), f"{w}1", f"A{w}", f"{w}_x", f"a_{w}_{w}")}
    return sorted(filter(_plain, found))


def _plain(text: str, besides: str = "_") -> bool:
    return all(c.isalnum() or c in besides for c in text)


HINTED_WORDS = _around(dictionary.WORDS) + [c for c in dictionary.CHARS if c.isalnum()] + [
    f"{'L' * (n - len(end))}{end}" for n in dictionary.sizes(600, 2) for end in ("L", "1", "a")
]
HINTED_NUMBERS = [str(n) for n in dictionary.numbers()]
# of folders and files
HINTED_NAMES = sorted({x for t in dictionary.TEXTS + dictionary.WORDS + dictionary.CHARS for x in (t, f"a{t}", f"{t}a", t.upper(), t.lower())} | set(HINTED_WORDS))


RESERVED = {"Null", "None", "none", "true", "True", "false", "False"}

KEYWORDS = ["make", "find", "report", "MAKE", "FIND", "REPORT", "Make", "adjust", "criteria", "using"]
LOOKALIKES = [
    "Remake", "makes", "MAKEr", "kame", "mkae", "Mkae", "DNIF", "dnif", "fidn", "findings", "finder",
    "porter", "Porter", "reporter", "TROPER", "reports", "pretor", "wn", "WN", "help", "q", "null",
    "true", "false", "None", "none", "Null", "True", "unfind", "_make_", "make1", "1make",
]

LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
WORD_CHARS = LETTERS + "0123456789_"
# with characters that are other ones once normalised or put in another case
LOOKALIKE_CHARS = "\u212b\u2126\u212a\u017f\u0130\ufb01\u1100\u1161\uff21\u01c5"
UNICODE_WORD_CHARS = WORD_CHARS + "éßÉ名前яЖñ²\u0663\u096b\U00010400\U0001d4b3\U00020000" + LOOKALIKE_CHARS

WHITESPACE = ["", "", " ", " ", "  ", "\t", "\n", "\r\n", " \n\t ", "\n\n"]


# long words that only differ in their ends
LONG_WORDS = st.tuples(st.sampled_from([31, 32, 63, 64, 99, 127, 255]), st.sampled_from(["", "1", "2", "A", "a", "é"])).map(lambda x: "L" * x[0] + x[1])


def words(pool):
    """Words, most of a small pool so that they often meet again."""
    usual = st.sampled_from(pool * 4 + KEYWORDS + LOOKALIKES)
    drawn = weighted(
        (12, usual),
        (2, text(WORD_CHARS, min_size=1, max_size=6)),
        (2, text(UNICODE_WORD_CHARS, min_size=1, max_size=25)),
        (2, text(LOOKALIKE_CHARS + "Aa1", min_size=1, max_size=3)),
        (1, LONG_WORDS),
    )
    return hinted(drawn, HINTED_WORDS, HINTED_NUMBERS)


LABELS = words(["A", "B", "C", "NodeLabel", "Person", "a", "LABEL", "R", "REL"])
HANDLES = words(["n", "m", "r", "x", "node1", "left_node_handle", "N"])
KEYS = words(
    ["a", "b", "name", "int", "str", "none", "list", "wn", "created_at", "updated_at", "node_label",
     "relations", "properties", "node_metadata", "1", "A", "bool", "float", "e"]
)
USUAL_NAMES = ["R", "S", "REL", "REL2", "KNOWS", "A", "B", "NODELABEL"] * 2 + [
    "MAKE", "FIND", "REPORT", "KAME", "REL_1", "_R", "1R", "R_", "TRUE", "NULL", "ÉTÉ", "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
]
REL_NAMES = weighted(
    (10, st.sampled_from(USUAL_NAMES)),
    (2, text("ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_", min_size=0, max_size=12).map(lambda x: "R" + x)),
    (1, LONG_WORDS.map(str.upper)),
)
REL_NAMES = hinted(REL_NAMES, [w.upper() for w in HINTED_WORDS if w.isascii() and w.upper().isupper()], [f"R{n}" for n in HINTED_NUMBERS])


# ---------------------------------------------------------------------------- values

INT_TEXTS = st.one_of(
    st.integers(0, 20),
    st.integers(0, 10**6),
    st.sampled_from(
        [2**31 - 1, 2**31, 2**32, 2**53, 2**53 + 1, 2**63 - 1, 2**63, 2**64, 10**16 + 1, 10**21, 10**30 + 7]
    ),
    st.integers(0, 10**40),
).map(str)
INT_TEXTS = hinted(INT_TEXTS, HINTED_NUMBERS, [str(10 ** (n - 1) + 7) for n in dictionary.sizes(300, 2)])

FLOAT_TEXTS = st.one_of(
    st.sampled_from(
        ["3.14", "0.0", "1.0", "0.1", "2.50", "100.0", "0.30000000000000004", "123456789.123456789",
         "1.10", "9007199254740993.0", "00.5", "0.000001", "10000000000000000000000.0", "1.7976931348623157"]
    ),
    st.tuples(st.integers(0, 10**9), text("0123456789", min_size=1, max_size=17)).map(
        lambda x: f"{x[0]}.{x[1]}"
    ),
)
FLOAT_TEXTS = hinted(
    FLOAT_TEXTS,
    [f"{n}.{end}" for n in HINTED_NUMBERS for end in ("0", "5", "001")],
    [f"{x:.20f}" for x in dictionary.FLOATS] + [f"{x + 0.1:f}" for x in dictionary.FLOATS],
    [f"1.{'3' * n}" for n in dictionary.sizes(300, 1)],
)

PHRASES = [
    "", " ", "2", "2_4", "3 4 5", "foo@bar.net", "it's", 'say "hi"', "a, b", "a: 1", "a: 1, b: 2", "true story",
    "not null", "null", "nullable", "TRUE", "1", "3.14", " x ", "x ", " x", "'", '"', "''", ",", ":", ", ", "x,",
    "MAKE", "make a find", "REPORT it", "Remake", "line\nbreak", "tab\tbed", "ünï", "名前", ".", "...", "@", "a@b,c:d",
    "true, false, null", "1, 2", "trueish", "falsehood", "None of it", "True that", "\nMAKE", "x: 'y'", 'x: "y"',
    "0x10", "1e5", "007", "1_000", "a  b", "a\r\nb", " true ", "null ", "nul", "tru", "false.", "k: true",
]
STRING_CHARS = "abcXYZ0129_ :,.'\"@\t\né名" + LOOKALIKE_CHARS[:8]
ANY_SPACE = " \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0\u1680\u2000\u2007\u2028\u2029\u202f\u205f\u3000"


HINTED_TEXTS = {x for t in dictionary.TEXTS for x in (t, f"x{t}", f"{t}x", f"x {t} y", t.upper(), t.lower())}
HINTED_TEXTS = sorted(x for x in HINTED_TEXTS if _plain(x, "_ :,.'\"@\t\n\r"))
HINTED_TEXTS += [c * n for n in dictionary.sizes(3000, 1) for c in "x "] + [("ab, " * n)[:n] + "x" for n in dictionary.sizes(3000, 1)]


def _quoted(text_and_quote):
    text, quote = text_and_quote
    if "'" in text and '"' in text:
        text = text.replace(quote, "")
    elif "'" in text:
        quote = '"'
    elif '"' in text:
        quote = "'"
    if text in RESERVED:
        text += "x"
    return ["str", text, quote]


STRINGS = st.tuples(
    hinted(
        weighted(
            (3, st.sampled_from(PHRASES + KEYWORDS + LOOKALIKES)),
            (2, text(STRING_CHARS, max_size=10)),
            (1, text(UNICODE_WORD_CHARS + " ", max_size=30)),
            (1, text(ANY_SPACE + "aé1", max_size=5)),
        ),
        HINTED_TEXTS,
        HINTED_WORDS,
        HINTED_NUMBERS,
    ),
    st.sampled_from("'\""),
).map(_quoted)

LEADING_ZEROS = st.tuples(st.sampled_from(["0", "00"]), st.integers(0, 99).map(str)).map(lambda x: ["int", x[0] + x[1]])

def repeated(few, sizes: list):
    """Lists of some sizes, of a few things again and again; None where there are no sizes."""
    return st.tuples(few, st.sampled_from(sizes)).map(lambda x: [x[0][i % len(x[0])] for i in range(x[1])]) if sizes else None


PRIMITIVES = weighted(
    (4, STRINGS),
    (3, INT_TEXTS.map(lambda x: ["int", x])),
    (2, FLOAT_TEXTS.map(lambda x: ["float", x])),
    (2, st.booleans().map(lambda x: ["bool", x])),
    (1, st.just(["null"])),
)
LISTS = hinted(
    weighted((3, st.lists(PRIMITIVES, max_size=4)), (1, st.lists(PRIMITIVES, max_size=12))),
    repeated(st.lists(PRIMITIVES, min_size=1, max_size=3), dictionary.sizes(200, 2)),
).map(lambda x: ["list", x])
VALUES = weighted((12, PRIMITIVES), (4, LISTS), (1, LEADING_ZEROS))
SIMPLE_VALUES = st.one_of(
    st.integers(0, 99).map(lambda x: ["int", str(x)]),
    st.sampled_from([["float", "3.14"], ["bool", True], ["bool", False], ["null"], ["str", "x", "'"], ["str", "it's", '"']]),
    st.just(["list", [["int", "1"], ["str", "two", "'"], ["null"]]]),
)


def props(values=VALUES, keys=KEYS, max_size=4):
    """None (nothing written), an empty map, or a map of uniquely named properties."""
    prop = st.tuples(keys, values).map(list)
    some = st.lists(prop, max_size=max_size, unique_by=lambda x: x[0])
    many = repeated(st.lists(values, min_size=1, max_size=3), dictionary.sizes(80, 2))
    named = None if many is None else many.map(lambda x: [[f"k{i}", v] for i, v in enumerate(x)])
    return weighted((2, st.none()), (3, hinted(some, named, usually=14)))


PROPS = props()
SIMPLE_PROPS = props(SIMPLE_VALUES, max_size=2)


# ---------------------------------------------------------------------------- patterns

DASHES = weighted((2, st.just([1, 1])), (1, st.lists(st.integers(1, 5), min_size=2, max_size=2)))
MAYBE_HANDLE = weighted((2, st.just("")), (3, HANDLES))


# Strategies are built once and used often: building one inside another is what costs time.


def patterns(labels=LABELS, names=REL_NAMES, handles=MAYBE_HANDLE, props=PROPS, min_nodes=1, max_nodes=3):
    counts = st.integers(min_nodes, max_nodes)
    maybe_names = weighted((1, st.just("")), (4, names))
    rel_rest = st.tuples(props, st.booleans(), DASHES, st.booleans())
    # now and then what is written is written alike a second time
    alike = st.sampled_from([0] * 6 + [1, 2, 3, 4, 7])
    node_rest = st.tuples(labels, props)

    @st.composite
    def build(draw):
        count = draw(counts)
        used = set()

        def handle():
            word = draw(handles)
            while word and word in used:
                word += "_"
            used.add(word)
            return word

        nodes, rels = [], []
        for i in range(count):
            label, node_props = draw(node_rest)
            nodes.append({"h": handle(), "l": label, "p": node_props})
            if i < count - 1:
                rel_props, right, dash, colon = draw(rel_rest)
                rels.append(
                    {"h": handle(), "n": draw(maybe_names), "p": rel_props, "right": right, "dash": dash, "colon": colon}
                )
        if rels:
            same = draw(alike)
            if same & 1:
                nodes[-1] = {"h": "", "l": nodes[0]["l"], "p": nodes[0]["p"]}
                nodes[0]["h"] = ""
            if same & 2:
                rels[-1] = {**rels[0], "h": "", "right": rels[-1]["right"]}
                rels[0]["h"] = ""
            if same & 4:
                nodes[1] = {**nodes[1], "l": nodes[0]["l"], "p": nodes[0]["p"]}
        return {"nodes": nodes, "rels": rels}

    return build()


PATTERNS = patterns()
SIMPLE_PATTERNS = patterns(props=SIMPLE_PROPS)


def keyword(word: str):
    """A clause keyword in any case."""
    return st.one_of(
        st.sampled_from([word, word, word.lower(), word.title(), word.swapcase()]),
        st.lists(st.booleans(), min_size=len(word), max_size=len(word)).map(
            lambda flags: "".join(c.lower() if f else c for c, f in zip(word, flags))
        ),
    )


MAKE_KEYWORDS, FIND_KEYWORDS, REPORT_KEYWORDS = keyword("MAKE"), keyword("FIND"), keyword("REPORT")


def makes(pattern=PATTERNS, max_patterns=3):
    some = st.lists(pattern, min_size=1, max_size=max_patterns)
    if max_patterns > 1:
        some = hinted(some, repeated(st.lists(pattern, min_size=1, max_size=2), dictionary.sizes(24, 2)), usually=40)
    return st.fixed_dictionaries({"t": st.just("make"), "kw": MAKE_KEYWORDS, "pats": some})


def finds(pattern=PATTERNS):
    return st.fixed_dictionaries(
        {"t": st.just("find"), "kw": FIND_KEYWORDS, "pats": st.lists(pattern, min_size=1, max_size=1)}
    )


MAKES, FINDS = makes(), finds()
SIMPLE_MAKES, SIMPLE_FINDS = makes(SIMPLE_PATTERNS), finds(SIMPLE_PATTERNS)


def handles_of(pattern: dict) -> list:
    return [x["h"] for x in pattern["nodes"] + pattern["rels"] if x["h"]]


# (what, which handle, property, how wn is written)
RAW_ITEMS = st.lists(
    st.tuples(st.sampled_from(["*", "h", "p", "wn"]), st.integers(0, 9), KEYS, st.sampled_from(["wn", "WN", "Wn"])),
    min_size=1,
    max_size=4,
)


def report_item(raw, handles: list) -> list:
    what, which, prop, wn = raw
    if what == "*" or not handles:
        return ["*"]
    handle = handles[which % len(handles)]
    return {"h": ["h", handle], "p": ["p", handle, prop], "wn": ["wn", handle, wn]}[what]


RAW_REPORTS = st.fixed_dictionaries({"kw": REPORT_KEYWORDS, "items": RAW_ITEMS})


def report_of(raw: dict, handles: list) -> dict:
    return {"t": "report", "kw": raw["kw"], "items": [report_item(x, handles) for x in raw["items"]]}


def queries(make=MAKES, find=FINDS, min_makes=1, max_makes=3, with_find=None):
    """A well-formed query: MAKEs, perhaps a FIND, perhaps a REPORT of its handles, in any order."""
    some_makes = st.lists(make, min_size=min_makes, max_size=max_makes)
    if max_makes > 1:
        some_makes = hinted(some_makes, repeated(st.lists(make, min_size=1, max_size=2), dictionary.sizes(24, 2)), usually=40)
    has_find = st.just(with_find) if with_find is not None else st.sampled_from([False, False, True])
    rest = st.tuples(find, st.booleans(), RAW_REPORTS, st.integers(0, 9), st.integers(0, 9))

    @st.composite
    def build(draw):
        statements = list(draw(some_makes))
        if draw(has_find):
            found, has_report, raw, at, report_at = draw(rest)
            statements.insert(at % (len(statements) + 1), found)
            if has_report:
                report = report_of(raw, handles_of(found["pats"][0]))
                statements.insert(report_at % (len(statements) + 1), report)
        return statements

    return build()


QUERIES = queries()
SIMPLE_QUERIES = queries(SIMPLE_MAKES, SIMPLE_FINDS)

LAYOUTS = weighted(
    (1, st.sampled_from([[""], [" "], ["", " ", ""]])),
    (2, st.lists(st.sampled_from(WHITESPACE), min_size=1, max_size=11)),
)
LAYOUTS = hinted(LAYOUTS, [[x] + [""] * n for size in dictionary.sizes(600, 1) for x in (" " * size, "\n" * size) for n in (12, 29)], usually=20)

# Where the counter of an empty database may stand after it was wiped
STARTS = hinted(
    st.sampled_from([0] * 9 + [1, 7, 9, 97, 254, 998, 9_997, 65_534, 2**31 - 2, 2**53 - 2, 10**18 - 3]),
    sorted({m for n in dictionary.NUMBERS for m in range(max(n - 3, 0), n + 2)}),
)


# ---------------------------------------------------------------------------- mistakes

# Each takes the tokens of a well-formed query and returns None where it can not be made.

STATEMENT_MISTAKES = [
    "undirected", "two_way", "lower_name", "drop_bracket", "extra_bracket", "illegal_char", "missing_pcomma",
    "missing_pcolon", "missing_lcomma", "empty_value", "empty_item", "wrong_case_value", "wrong_case_null", "wrong_case_item", "same_handle",
    "transposed_keyword",
]

BRACKET_KINDS = {"lparen", "rparen", "lcurly", "rcurly", "lsquare", "rsquare", "relopen", "relclose"}


def _in_pattern(token) -> bool:
    return ".p" in token[2]


def _sites(tokens, *kinds):
    return [i for i, t in enumerate(tokens) if t[0] in kinds and _in_pattern(t)]


def mistake_sites(tokens: list, mistake: str) -> list:
    if mistake in ("undirected", "two_way"):
        return _sites(tokens, "relopen")
    if mistake == "lower_name":
        return [i for i in _sites(tokens, "rname") if tokens[i][1].lower() != tokens[i][1]]
    if mistake in ("drop_bracket", "extra_bracket"):
        return _sites(tokens, *BRACKET_KINDS)
    if mistake == "illegal_char":
        # anywhere in a MAKE or FIND statement after its keyword
        return [i for i, t in enumerate(tokens) if _in_pattern(t) or t[0] == "patcomma"]
    if mistake == "missing_pcomma":
        return _sites(tokens, "pcomma")
    if mistake == "missing_pcolon":
        return _sites(tokens, "pcolon")
    if mistake == "missing_lcomma":
        return _sites(tokens, "lcomma")
    if mistake in ("empty_value", "wrong_case_value", "wrong_case_null"):
        return _sites(tokens, "value")
    if mistake == "empty_item":
        # nothing after the last comma of a list is no element
        return [i for i in _sites(tokens, "item") if tokens[i + 1][0] == "lcomma"]
    if mistake == "wrong_case_item":
        return _sites(tokens, "item")
    if mistake == "same_handle":
        found = []
        for i in _sites(tokens, "handle", "rhandle", "colon"):
            if _other_handle(tokens, i) is not None:
                found.append(i)
        return found
    if mistake == "transposed_keyword":
        return [i for i, t in enumerate(tokens) if t[0] == "kw"]
    raise ValueError(mistake)


def _pattern_of(token) -> str:
    return token[2].rsplit(".", 1)[0]


def _other_handle(tokens, index):
    """A handle of another node or relationship of the same pattern."""
    for t in tokens:
        if t[0] in ("handle", "rhandle") and _pattern_of(t) == _pattern_of(tokens[index]) and t[2] != tokens[index][2]:
            return t[1]
    return None


WRONG_BOOLS = ["True", "False", "TRUE", "FALSE", "tRUE", "faLse"]
WRONG_ITEMS = ["TRUE", "FALSE", "tRUE", "faLse", "Null", "NULL", "nuLL", "none", "NONE", "tru", "nil"]
WRONG_NULLS = ["Null", "NULL", "None", "none", "nuLL"]


def make_mistake(tokens: list, mistake: str, index: int, pick: int) -> list:
    """The tokens with one mistake at one of its sites; pick chooses between variants."""
    tokens = [list(t) for t in tokens]
    token = tokens[index]
    if mistake in ("undirected", "two_way"):
        close = next(i for i in range(index, len(tokens)) if tokens[i][0] == "relclose")
        left = token[1].strip("<[")
        right = tokens[close][1].strip("]>")
        if mistake == "undirected":
            token[1], tokens[close][1] = f"{left}[", f"]{right}"
        else:
            token[1], tokens[close][1] = f"<{left}[", f"]{right}>"
    elif mistake == "lower_name":
        word = token[1]
        cased = [i for i, c in enumerate(word) if c.lower() != c and len(c.lower()) == 1]
        if pick % 2 and len(cased) > 1:
            at = cased[pick % len(cased)]
            token[1] = word[:at] + word[at].lower() + word[at + 1 :]
        else:
            token[1] = word.lower()
    elif mistake == "drop_bracket":
        token[1] = "".join(c for c in token[1] if c not in "(){}[]")
    elif mistake == "extra_bracket":
        bracket = next(c for c in token[1] if c in "(){}[]")
        tokens.insert(index, ["extra", bracket, token[2]])
    elif mistake == "illegal_char":
        char = "#%&*$"[pick % 5]
        if token[0] in ("value", "item", "label", "key") and pick // 5 % 2:
            at = (pick // 10) % (len(token[1]) + 1)
            token[1] = token[1][:at] + char + token[1][at:]
        else:
            tokens.insert(index, ["extra", char, token[2]])
    elif mistake in ("missing_pcomma", "missing_pcolon", "missing_lcomma"):
        # the two sides stay apart, or it would be another word, not two without a separator
        token[1] = " "
    elif mistake in ("empty_value", "empty_item"):
        token[1] = ""
    elif mistake == "wrong_case_value":
        token[1] = WRONG_BOOLS[pick % len(WRONG_BOOLS)]
    elif mistake == "wrong_case_null":
        token[1] = WRONG_NULLS[pick % len(WRONG_NULLS)]
    elif mistake == "wrong_case_item":
        token[1] = WRONG_ITEMS[pick % len(WRONG_ITEMS)]
    elif mistake == "same_handle":
        word = _other_handle(tokens, index)
        if token[0] == "colon":
            if tokens[index - 1][0] == "handle":
                tokens[index - 1][1] = word
            else:
                tokens.insert(index, ["handle", word, token[2]])
        else:
            token[1] = word
    elif mistake == "transposed_keyword":
        token[1] = transposed(token[1], pick)
    else:
        raise ValueError(mistake)
    return tokens


def transposed(word: str, pick: int) -> str:
    """Another order of the letters of a keyword."""
    from itertools import permutations

    orders = sorted({"".join(x) for x in permutations(word.upper())} - {word.upper()})
    found = orders[pick % len(orders)]
    return found.lower() if (pick // len(orders)) % 2 or word.islower() else found


# ---------------------------------------------------------------------------- steps of a history

MISTAKES = st.tuples(st.sampled_from(STATEMENT_MISTAKES), st.integers(0, 200), st.integers(0, 10**6)).map(list)


def step_of(query, layout=LAYOUTS, mistake=st.none()):
    return st.fixed_dictionaries({"q": query, "layout": layout, "mistake": mistake})


def step_text(step: dict):
    """The text of a step, and whether a mistake was made in it."""
    from pbt import model

    tokens = model.query_tokens(step["q"])
    made = False
    if step.get("mistake"):
        kind, site, pick = step["mistake"]
        sites = mistake_sites(tokens, kind)
        if sites:
            tokens = make_mistake(tokens, kind, sites[site % len(sites)], pick)
            made = True
    text = model.join_tokens(tokens, step["layout"])
    if step.get("edits"):
        text, made = apply_edits(text, step["edits"]), True
    return text, made


SPLICES = [
    "-1", "-", "+5", "1e5", "1.5e3", "1_000", "0x10", "1.", ".5", "1.2.3", "/", "\\", "!", "?", "=", "<", ">", "|", "~", "^", "`",
    "[[1], [2]]", "[1, [2]]", "[]", "{}", "()", "[", "]", "{", "}", "(", ")", "'", '"', "''", ",", ",,", ":", "::", ";", ";;",
    "(:X)", "(X)", "()", "-->", "-[:T]->(:W)", "<-[:T]-(:W)", "-[]->", "<-[]->", "-[]-", "(:W)", "(:W)-[:T]->", "-[:t]->(:W)",
    "null", "true", "false", "True", "Null", "None", "nan", "inf", "1j", "b'a'", "f'a'", "r'a'", "u'a'", "...", "*", "#", "%", "&", "$", "@",
    "{a: 1}", "{a: 1, a: 2}", ", a: 1", "a: 1", "a: -1", "z: 'x' 'y'", "z: 1 2", "z: a b", "z: [1 2]", "z: ['a' 'b']", "z: [a]", "z: [-1]",
    "z: [1,]", "z: [,]", "z: (1)", "z: {b: 1}", "z: [true]", "z: [True]", "z: 'a;b'", "z: 'a(b)'", "z: '[x]'", "z: '{x}'", "z: x-y", "z: x/y",
    "MAKE", "MAKE (:Z);", "make(:Z);", "FIND", "FIND (:Z);", "REPORT *;", "MKAE (:Z);", "ADJUST n.a = 1;", "CRITERIA n.a = 1;", "USING x;", "help;",
    "\u00a0", "\u200b", "\u2028", "\x0b", "\x0c", "\x1c", "\x85", "\x00", "\ufeff", "\u0130", "\u017f", "\u212a", "٣", "²", "٣.٤", "\n", "\t", " ",
    "9" * 30, "1" + "0" * 400 + ".0", "x" * 60, "a.b", "a@b", "foo@bar.net", "1abc", "'a", "a'", "'a'b'", '"a"b', "'a'\"b\"", "--", "----",
]
HINTED_SPLICES = dictionary.TEXTS + dictionary.CHARS + HINTED_NUMBERS + [c * n for n in dictionary.sizes(600, 2) for c in " ;(1a\n"]
EDITS = st.lists(
    st.tuples(
        st.sampled_from(["insert", "insert", "insert", "replace", "delete", "swap", "copy", "token"]),
        st.integers(0, 5000),
        hinted(st.sampled_from(SPLICES), HINTED_SPLICES),
        st.integers(1, 12),
    ).map(list),
    min_size=1,
    max_size=3,
)


def apply_edits(text: str, edits: list) -> str:
    """A text after some edits at places counted modulo its length."""
    for kind, at, splice, size in edits:
        at %= len(text) + 1
        if kind == "insert":
            text = text[:at] + splice + text[at:]
        elif kind == "replace":
            text = text[:at] + splice + text[at + size :]
        elif kind == "delete":
            text = text[:at] + text[at + size :]
        elif kind == "swap":
            text = text[:at] + text[at + 1 : at + 2] + text[at : at + 1] + text[at + 2 :]
        elif kind == "copy":
            text = text[:at] + text[at : at + size] + text[at:]
        else:
            # before or after the next piece of punctuation, where it reads as part of the syntax
            after = next((i for i in range(at, len(text)) if text[i] in "{}[](),:;"), len(text))
            after = min(after + size % 2, len(text))
            text = text[:after] + " " + splice + " " + text[after:]
    return text


OTHER_TEXT = st.sampled_from(
    ["", " ", ";", "MAKE", "MAKE;", "MAKE ;", "FIND;", "FIND (n);", "REPORT;", "REPORT *;", "REPORT a;", "hello", "(:A)", "(:A);",
     "MAKE (:A)", "MAKE (:A", "MAKE :A);", "MAKE ();", "MAKE (a);", "MAKE (:A)-[:R]->;", "MAKE -[:R]->(:A);", "MAKE (:A)-->(:B);", "q", "help",
     "ADJUST n.a = 1;", "CRITERIA n.a = 1;", "USING n;", "ADJUST MAKE (:A);", "x MAKE (:A);", "FIND MAKE (:A);", "MAKE FIND (:A);",
     "MAKE (:A){a: 1};", "MAKE {a: 1};", "MAKE (:A),;", "MAKE ,(:A);", "MAKE (:A),,(:B);", "DNIF (:A);", "TROPER *;"]
)

# Steps that are accepted and steps that are not, in any mixture
STEPS = step_of(SIMPLE_QUERIES, mistake=weighted((3, st.none()), (1, MISTAKES)))
RICH_STEPS = step_of(QUERIES, mistake=weighted((3, st.none()), (1, MISTAKES)))


def big_makes(drawn) -> list:
    """A MAKE with its patterns many times: in one statement or many, with the same labels or others."""
    make, times, many, others = drawn
    patterns = [
        {**p, "nodes": [{**n, "l": f"{n['l']}_{i}"} for n in p["nodes"]]} if others and i else p
        for i in range(times)
        for p in make["pats"]
    ]
    return [{**make, "pats": [p]} for p in patterns] if many else [{**make, "pats": patterns}]


BIG_MAKES = st.tuples(SIMPLE_MAKES, hinted(weighted((2, st.integers(2, 12)), (1, st.integers(12, 30))), dictionary.sizes(300, 2), usually=8), st.booleans(), st.booleans()).map(big_makes)
BIG_STEPS = step_of(BIG_MAKES, layout=st.just([""]))
HISTORIES = weighted(
    (3, st.lists(STEPS, min_size=1, max_size=6)),
    (1, st.lists(weighted((4, STEPS), (1, BIG_STEPS)), min_size=1, max_size=7)),
    (1, st.lists(RICH_STEPS, min_size=1, max_size=4)),
)
# a history of as many steps as a number of the dictionary says
LONG_HISTORIES = repeated(st.lists(STEPS, min_size=1, max_size=3), dictionary.sizes(60, 2))
HISTORIES = hinted(HISTORIES, LONG_HISTORIES, usually=40)
