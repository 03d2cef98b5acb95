"""
The reference model of WQL.

A query is a list of statements of plain JSON data:

  {"t": "make", "kw": "MAKE", "pats": [pattern, ...]}
  {"t": "find", "kw": "FIND", "pats": [pattern]}
  {"t": "report", "kw": "REPORT", "items": [["*"], ["h", handle], ["p", handle, property], ["wn", handle]]}

  pattern  {"nodes": [node] * 1..3, "rels": [rel] * (len(nodes) - 1)}
  node     {"h": handle, "l": label, "p": props}
  rel      {"h": handle, "n": name, "p": props, "right": bool, "dash": [n, n], "colon": bool}
  props    None (nothing written) or [[name, value], ...]
  value    ["int", "7"], ["float", "3.14"], ["bool", true], ["null"], ["str", text, quote], ["list", [value, ...]]

It is rendered through a list of tokens, so that layout (the whitespace between tokens) and
mistakes (a token removed, doubled or replaced) are separate from what is said.
"""
import json
from itertools import permutations
from typing import Any, Optional

# ---------------------------------------------------------------------------- values


def value_text(value: list) -> str:
    kind = value[0]
    if kind in ("int", "float"):
        return value[1]
    if kind == "bool":
        return "true" if value[1] else "false"
    if kind == "null":
        return "null"
    if kind == "str":
        return f"{value[2]}{value[1]}{value[2]}"
    raise ValueError(kind)


def value_python(value: list) -> Any:
    kind = value[0]
    if kind == "int":
        return int(value[1])
    if kind == "float":
        return float(value[1])
    if kind == "bool":
        return bool(value[1])
    if kind == "null":
        return None
    if kind == "str":
        return value[1]
    if kind == "list":
        return [value_python(x) for x in value[1]]
    raise ValueError(kind)


def props_python(props: Optional[list]) -> dict:
    return {name: value_python(value) for name, value in props or []}


def typed(value: Any) -> str:
    """A text that is equal for two values exactly if they have the same type and value."""
    return json.dumps(_typed(value), sort_keys=True, ensure_ascii=True)


def _typed(value: Any) -> Any:
    if isinstance(value, bool):
        return ["bool", value]
    if isinstance(value, int):
        return ["int", str(value)]
    if isinstance(value, float):
        return ["float", repr(value)]
    if value is None:
        return ["null"]
    if isinstance(value, str):
        return ["str", value]
    if isinstance(value, (list, tuple)):
        return ["list", [_typed(x) for x in value]]
    if isinstance(value, (set, frozenset)):
        return ["set", sorted(json.dumps(_typed(x)) for x in value)]
    if isinstance(value, dict):
        return ["dict", sorted([json.dumps(_typed(k)), _typed(v)] for k, v in value.items())]
    return ["other", type(value).__name__, repr(value)]


# ---------------------------------------------------------------------------- graphs


def canonical_component(nodes: list, rels: list) -> str:
    """
    A component up to renaming of identifiers.
    :param nodes: (label, properties) pairs.
    :param rels: (name, properties, index of the start, index of the end).
    """
    node_texts = [json.dumps([label, typed(props or {})]) for label, props in nodes]
    rel_texts = [json.dumps([name or "", typed(props or {})]) for name, props, _, _ in rels]
    count = len(nodes)

    def arrange(order) -> str:
        place = {old: new for new, old in enumerate(order)}
        return json.dumps(
            [
                [node_texts[i] for i in order],
                sorted([text, place[r[2]], place[r[3]]] for text, r in zip(rel_texts, rels)),
            ]
        )

    if count > 6:
        # no pattern is that large: a text that is the same for the same numbering is enough
        return arrange(sorted(range(count), key=lambda i: node_texts[i]))
    return min(arrange(order) for order in permutations(range(count)))


def pattern_component(pattern: dict) -> str:
    nodes = [(n["l"], props_python(n["p"])) for n in pattern["nodes"]]
    rels = []
    for i, rel in enumerate(pattern["rels"]):
        start, end = (i, i + 1) if rel["right"] else (i + 1, i)
        rels.append((rel["n"], props_python(rel["p"]), start, end))
    return canonical_component(nodes, rels)


def make_patterns(statements: list) -> list:
    return [p for s in statements if s["t"] == "make" for p in s["pats"]]


def expected_components(statements: list) -> list:
    return sorted(pattern_component(p) for p in make_patterns(statements))


def identifiers_needed(statements: list) -> int:
    return sum(len(p["nodes"]) + len(p["rels"]) for p in make_patterns(statements))


def stored_components(database: dict, keys=None) -> list:
    """The components of (the given records of) a database, up to renaming of identifiers."""
    wanted = list(database) if keys is None else list(keys)
    parent = {key: key for key in wanted}

    def root(key):
        while parent[key] != key:
            parent[key] = parent[parent[key]]
            key = parent[key]
        return key

    dangling = []
    for key in wanted:
        for rel in database[key]["relations"] or []:
            for end in (str(rel["wn_from_node"]), str(rel["wn_to_node"])):
                if end not in parent:
                    dangling.append(json.dumps(["dangling", key, rel["relationship_name"]]))
                else:
                    parent[root(key)] = root(end)
    groups: dict = {}
    for key in wanted:
        groups.setdefault(root(key), []).append(key)
    found = list(dangling)
    for members in groups.values():
        place = {key: i for i, key in enumerate(members)}
        nodes = [(database[k]["node_label"], database[k]["properties"]) for k in members]
        rels = []
        for key in members:
            for rel in database[key]["relations"] or []:
                start, end = str(rel["wn_from_node"]), str(rel["wn_to_node"])
                if start in place and end in place:
                    # held by another node than the one it starts from: part of the picture
                    name = rel["relationship_name"] or ""
                    if key != start:
                        name = f"{name} (held by the wrong node)"
                    rels.append((name, rel["properties"], place[start], place[end]))
        found.append(canonical_component(nodes, rels))
    return sorted(found)


def difference(expected: list, found: list) -> str:
    """What is only in one of two sorted lists of components."""
    missing, extra = list(expected), []
    for item in found:
        if item in missing:
            missing.remove(item)
        else:
            extra.append(item)
    return f"missing: {missing[:3]} not expected: {extra[:3]}"


# ---------------------------------------------------------------------------- tokens

# A token is [kind, text, where]; whitespace may stand between any two of them.


def _props_tokens(props: Optional[list], where: str) -> list:
    if props is None:
        return []
    tokens = [["lcurly", "{", where]]
    for i, (name, value) in enumerate(props):
        if i:
            tokens.append(["pcomma", ",", where])
        tokens.append(["key", name, where])
        tokens.append(["pcolon", ":", where])
        if value[0] == "list":
            tokens.append(["lsquare", "[", where])
            for j, item in enumerate(value[1]):
                if j:
                    tokens.append(["lcomma", ",", where])
                tokens.append(["item", value_text(item), where])
            tokens.append(["rsquare", "]", where])
        else:
            tokens.append(["value", value_text(value), where])
    tokens.append(["rcurly", "}", where])
    return tokens


def _node_tokens(node: dict, where: str) -> list:
    tokens = [["lparen", "(", where]]
    if node["h"]:
        tokens.append(["handle", node["h"], where])
    tokens.append(["colon", ":", where])
    tokens.append(["label", node["l"], where])
    tokens.extend(_props_tokens(node["p"], where))
    tokens.append(["rparen", ")", where])
    return tokens


def _rel_tokens(rel: dict, where: str) -> list:
    left, right = ("-" * n for n in rel["dash"])
    tokens = [["relopen", f"{left}[" if rel["right"] else f"<{left}[", where]]
    if rel["h"]:
        tokens.append(["rhandle", rel["h"], where])
    if rel["n"] or rel["colon"]:
        tokens.append(["rcolon", ":", where])
    if rel["n"]:
        tokens.append(["rname", rel["n"], where])
    tokens.extend(_props_tokens(rel["p"], where))
    tokens.append(["relclose", f"]{right}>" if rel["right"] else f"]{right}", where])
    return tokens


def pattern_tokens(pattern: dict, where: str) -> list:
    tokens = []
    for i, node in enumerate(pattern["nodes"]):
        tokens.extend(_node_tokens(node, f"{where}.n{i}"))
        if i < len(pattern["rels"]):
            tokens.extend(_rel_tokens(pattern["rels"][i], f"{where}.r{i}"))
    return tokens


def statement_tokens(statement: dict, index: int) -> list:
    where = f"s{index}"
    tokens = [["kw", statement["kw"], where]]
    if statement["t"] == "report":
        for i, item in enumerate(statement["items"]):
            if i:
                tokens.append(["rcomma", ",", where])
            if item[0] == "*":
                tokens.append(["star", "*", where])
            elif item[0] == "h":
                tokens.append(["item_handle", item[1], where])
            elif item[0] == "p":
                tokens.extend(
                    [["item_handle", item[1], where], ["dot", ".", where], ["item_prop", item[2], where]]
                )
            else:
                tokens.extend(
                    [
                        ["wn", item[2] if len(item) > 2 else "wn", where],
                        ["wlparen", "(", where],
                        ["item_handle", item[1], where],
                        ["wrparen", ")", where],
                    ]
                )
    else:
        for i, pattern in enumerate(statement["pats"]):
            if i:
                tokens.append(["patcomma", ",", where])
            tokens.extend(pattern_tokens(pattern, f"{where}.p{i}"))
    tokens.append(["semi", ";", where])
    return tokens


def query_tokens(statements: list) -> list:
    return [t for i, s in enumerate(statements) for t in statement_tokens(s, i)]


def _wordy(char: str) -> bool:
    return char.isalnum() or char == "_"


PLAIN = ["", " "]


def join_tokens(tokens: list, layout: Optional[list] = None) -> str:
    """
    Writes the tokens out, taking the whitespace between them from the layout in turn; two
    words are always kept apart. An empty layout is the usual compact style.
    """
    layout = layout or [""]
    text = layout[0]
    for i, token in enumerate(tokens):
        if i:
            space = layout[i % len(layout)]
            if not space and text and token[1] and _wordy(text[-1]) and _wordy(token[1][0]):
                space = " "
            text += space
        text += token[1]
    return text + layout[len(tokens) % len(layout)]


def render(statements: list, layout: Optional[list] = None) -> str:
    return join_tokens(query_tokens(statements), layout)
