"""The tool's own checkers, run in-process on a text, without the overrides that hide messages from one another."""
import io
import json
import os
import re
import sys
import warnings

from vlib import edu

_plugins = None
_codes = None


def codes():
    global _codes
    if _codes is None:
        _codes = edu.own_messages()
    return _codes


def forget(path):
    """astroid keeps parsed modules by name"""
    from astroid import MANAGER

    path = os.path.abspath(path)
    for k in [k for k, v in MANAGER.astroid_cache.items() if getattr(v, "file", None) == path]:
        del MANAGER.astroid_cache[k]
    try:
        from astroid.inference_tip import clear_inference_tip_cache

        clear_inference_tip_cache()
    except ImportError:
        pass


def run(text, path="m.py", enable=None, extra=()):
    """-> list of message dicts (messageId, symbol, line, column, endLine, endColumn, message)"""
    global _plugins
    from pylint.lint import Run
    from pylint.reporters.json_reporter import JSON2Reporter

    if _plugins is None:
        p = edu.plugins()
        _plugins = p if isinstance(p, str) else ",".join(p)
    edu.write(path, text)
    out, err = io.StringIO(), io.StringIO()
    old = sys.stderr
    sys.stderr = err
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            Run(["--load-plugins=" + _plugins, "--disable=all", "--enable=E0001,F0002," + ",".join(enable or codes()), "--persistent=n", *extra, path], reporter=JSON2Reporter(out), exit=False)
    finally:
        sys.stderr = old
        forget(path)
    return json.loads(out.getvalue())["messages"]


class Misplaced(Exception):
    pass


def node_at(tree, m, *types):
    """the ast node of one of the types at exactly the message's place, or None"""
    import ast

    found = [n for n in ast.walk(tree) if isinstance(n, types) and n.lineno == m["line"] and n.col_offset == m["column"]
             and (m["endLine"] is None or (n.end_lineno, n.end_col_offset) == (m["endLine"], m["endColumn"]))]
    if not found:  # a compound statement's reported end may be another
        found = [n for n in ast.walk(tree) if isinstance(n, types) and isinstance(n, ast.stmt) and n.lineno == m["line"] and n.col_offset == m["column"]]
    return found[0] if found else None


def parse_expr(text):
    import ast

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return ast.parse(text.strip(), mode="eval").body


def denegated(text):
    """all the readings of a text with '<negated X>' parts as an expression (as source with `not (X)`)"""
    i = text.find("<negated ")
    if i < 0:
        return [text]
    res = []
    for j in [m.start() for m in re.finditer(">", text)]:
        if j < i:
            continue
        x = text[i + len("<negated "):j]
        try:
            parse_expr(f"({x})")
        except (SyntaxError, ValueError):
            continue
        for rest in denegated(text[j + 1:]):
            res.append(text[:i] + f"(not ({x}))" + rest)
    return res
