"""
A hand-written parser of WQL text, independent of the code under test (which uses regexes).

It reads what is written in the MAKE statements of any text: the components and their typed
properties. It is lenient where the meaning is plain (commas between patterns, unquoted words),
because it only has to say what an accepted query should have stored; it raises Unreadable for
text that means nothing.
"""
import re

from pbt import model


class Unreadable(Exception):
    pass


UNQUOTED_FIRST = "+@."
UNQUOTED_MORE = "+@.'\""


def is_word_char(char: str) -> bool:
    return char.isalnum() or char == "_"


class Reader:
    def __init__(self, text: str) -> None:
        self.text = text
        self.at = 0

    def space(self) -> None:
        while self.at < len(self.text) and self.text[self.at].isspace():
            self.at += 1

    def peek(self) -> str:
        return self.text[self.at : self.at + 1]

    def done(self) -> bool:
        self.space()
        return self.at >= len(self.text)

    def take(self, char: str) -> bool:
        if self.peek() == char:
            self.at += 1
            return True
        return False

    def need(self, char: str) -> None:
        if not self.take(char):
            raise Unreadable(f"{char} expected at {self.at} of {self.text!r}")

    def word(self) -> str:
        start = self.at
        while self.at < len(self.text) and is_word_char(self.text[self.at]):
            self.at += 1
        return self.text[start : self.at]

    def run(self, char: str) -> int:
        start = self.at
        while self.take(char):
            pass
        return self.at - start


# ---------------------------------------------------------------------------- values

NUMBERS_IN_LISTS = [
    (re.compile(r"0(_?0)*|[1-9](_?[0-9])*"), lambda x: int(x.replace("_", ""))),
    (re.compile(r"0[xX](_?[0-9a-fA-F])+|0[oO](_?[0-7])+|0[bB](_?[01])+"), lambda x: int(x.replace("_", ""), 0)),
    (
        re.compile(
            r"([0-9](_?[0-9])*\.([0-9](_?[0-9])*)?|\.[0-9](_?[0-9])*)([eE]\+?[0-9](_?[0-9])*)?|[0-9](_?[0-9])*[eE]\+?[0-9](_?[0-9])*"
        ),
        lambda x: float(x.replace("_", "")),
    ),
]
CONSTANTS_IN_LISTS = {"true": True, "false": False, "null": None, "True": True, "False": False, "None": None}


def bare_list_item(text: str):
    if text in CONSTANTS_IN_LISTS:
        return CONSTANTS_IN_LISTS[text]
    unsigned = text[1:].strip() if text.startswith("+") else text
    for pattern, convert in NUMBERS_IN_LISTS:
        if pattern.fullmatch(unsigned) and unsigned.isascii():
            value = convert(unsigned)
            if value == float("inf"):
                raise Unreadable(f"{text} is too large")
            return value
    raise Unreadable(f"{text!r} is no list item")


def quoted(reader: Reader) -> str:
    quote = reader.peek()
    end = reader.text.find(quote, reader.at + 1)
    if end < 0:
        raise Unreadable(f"{quote} is not closed")
    found = reader.text[reader.at + 1 : end]
    reader.at = end + 1
    return found


def list_value(reader: Reader) -> list:
    reader.need("[")
    items = []
    while True:
        reader.space()
        if reader.take("]"):
            return items
        if reader.peek() in ("'", '"'):
            items.append(quoted(reader))
        else:
            start = reader.at
            while reader.at < len(reader.text) and reader.peek() not in ",]['\"{}":
                reader.at += 1
            items.append(bare_list_item(reader.text[start : reader.at].strip()))
        reader.space()
        if not reader.take(","):
            reader.need("]")
            return items


DIGITS = re.compile(r"\d+")


def scalar(text: str):
    if text == "null":
        return None
    if text in ("true", "false"):
        return text == "true"
    if text.lower() in ("null", "true", "false"):
        raise Unreadable(f"{text} is in the wrong case")
    if re.fullmatch(r"[0-9]+", text):
        return int(text)
    if re.fullmatch(r"\d+\.\d+", text):
        value = float(text)
        if value == float("inf"):
            raise Unreadable(f"{text} is too large")
        return value
    if not text or not (is_word_char(text[0]) or text[0] in UNQUOTED_FIRST):
        raise Unreadable(f"{text!r} is no value")
    if not all(is_word_char(c) or c in UNQUOTED_MORE or c.isspace() for c in text):
        raise Unreadable(f"{text!r} is no value")
    return text


def value(reader: Reader):
    reader.space()
    if reader.peek() == "[":
        return list_value(reader)
    if reader.peek() in ("'", '"') and reader.peek():
        return quoted(reader)
    start = reader.at
    while reader.at < len(reader.text) and reader.peek() not in ",}{":
        reader.at += 1
    return scalar(reader.text[start : reader.at].strip())


def props(reader: Reader) -> dict:
    reader.need("{")
    reader.space()
    found: dict = {}
    if reader.take("}"):
        return found
    while True:
        reader.space()
        name = reader.word()
        if not name or name in found:
            raise Unreadable(f"the property name {name!r}")
        reader.space()
        reader.need(":")
        found[name] = value(reader)
        reader.space()
        if not reader.take(","):
            reader.need("}")
            return found


def maybe_props(reader: Reader) -> dict:
    reader.space()
    return props(reader) if reader.peek() == "{" else {}


# ---------------------------------------------------------------------------- patterns


def node(reader: Reader) -> tuple:
    reader.need("(")
    reader.space()
    reader.word()
    reader.space()
    reader.need(":")
    reader.space()
    label = reader.word()
    if not label:
        raise Unreadable("a node has no label")
    found = (label, maybe_props(reader))
    reader.space()
    reader.need(")")
    return found


def relationship(reader: Reader) -> tuple:
    """(name, properties, left to right)"""
    leftwards = reader.take("<")
    if not reader.run("-"):
        raise Unreadable("no arrow")
    reader.need("[")
    reader.space()
    reader.word()
    reader.space()
    reader.take(":")
    reader.space()
    name = reader.word()
    properties = maybe_props(reader)
    reader.space()
    reader.need("]")
    if not reader.run("-"):
        raise Unreadable("no arrow")
    if reader.take(">") == leftwards:
        raise Unreadable("an arrow of two directions or none")
    return name, properties, not leftwards


def make_components(body: str) -> list:
    """What stands after the keyword MAKE of one statement."""
    reader = Reader(body)
    components = []
    while True:
        while not reader.done() and reader.take(","):
            pass
        if reader.done():
            return components
        nodes, rels = [node(reader)], []
        while True:
            reader.space()
            if reader.peek() not in ("<", "-") or not reader.peek():
                break
            name, properties, rightwards = relationship(reader)
            reader.space()
            nodes.append(node(reader))
            start, end = len(nodes) - 2, len(nodes) - 1
            rels.append((name, properties, start, end) if rightwards else (name, properties, end, start))
        components.append(model.canonical_component(nodes, rels))


def written_components(text: str) -> list:
    """The components written in the MAKE statements of a text, in canonical form."""
    found = []
    *ended, rest = text.split(";")
    # what does not end has to be refused where it begins a pattern; without one it says nothing
    for part in ended + [rest] * ("(" in rest):
        part = part.lstrip()
        if part[:4].lower() == "make" and not (part[4:5] and is_word_char(part[4])):
            found.extend(make_components(part[4:]))
    return sorted(found)
