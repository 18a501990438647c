"""Running the real edulint in-process, with everything it says captured."""
import io
import os
import sys
from contextlib import contextmanager
from typing import List, Optional, Tuple

from loguru import logger

logger.remove()


@contextmanager
def captured_log(level="DEBUG"):
    recs: List[Tuple[str, str]] = []
    hid = logger.add(lambda m: recs.append((m.record["level"].name, m.record["message"])), level=level)
    try:
        yield recs
    finally:
        logger.remove(hid)


ALL_PLUGINS = ("R6", "E99")


def check(files, options=None):
    """-> (configs, problems) or None; plus the log records"""
    from edulint import check_code

    if isinstance(files, str):
        files = [files]
    with captured_log("WARNING") as log:
        r = check_code(list(files), list(options or []))
    return r, log


def own(problems):
    return [p for p in problems if p.code.startswith(("R6", "E99"))]


def fresh_astroid():
    """drops pylint/astroid caches so a file name can be reused with new content"""
    from astroid import MANAGER

    MANAGER.astroid_cache.clear() if False else None
    for k in [k for k, v in MANAGER.astroid_cache.items()
              if getattr(v, "file", None) and str(v.file).startswith(os.environ.get("VERIF_SCRATCH", "/tmp/verif"))]:
        del MANAGER.astroid_cache[k]


def write(path, text):
    d = os.path.dirname(path)
    if d:
        os.makedirs(d, exist_ok=True)
    with open(path, "w", encoding="utf-8", newline="") as f:
        f.write(text)
    return path


def plugins():
    """pylint plugins the packaged configuration loads"""
    import tomli

    with open("/repo/edulint/config/files/empty.toml", "rb") as f:
        return tomli.load(f)["pylint"]["load-plugins"]


def own_messages(symbols=False):
    """codes of all the messages the tool's own checkers define"""
    from pylint.lint import PyLinter

    linter = PyLinter()
    linter.load_plugin_modules(plugins())
    ms = [m for m in linter.msgs_store.messages if m.msgid.startswith(("R6", "E99"))]
    return {m.symbol: m.msgid for m in ms} if symbols else sorted(m.msgid for m in ms)
