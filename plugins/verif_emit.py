"""pylint plugin of the verification workload: emits the messages a file asks for in its `#! CODE ARG|ARG` comments."""
import json
import re

from pylint.checkers import BaseRawFileChecker


class Emit(BaseRawFileChecker):
    name = "verif-emit"
    msgs = {"W9901": ("%s", "verif-emitted", "message emitted on request")}

    def process_module(self, node):
        with node.stream() as stream:
            for i, line in enumerate(stream, 1):
                for m in re.finditer(rb"#! (\w\d{4}) (\[.*?\])!", line):
                    args = json.loads(m.group(2).decode("utf-8"))
                    code = m.group(1).decode()
                    for d in self.linter.msgs_store.get_message_definitions(code):
                        scoped = {"node": node} if d.scope == "node-based-msg" else {}
                    self.linter.add_message(code, line=i, **scoped, col_offset=args[0], args=tuple(args[1:]), end_lineno=i, end_col_offset=args[0] + 1)


def register(linter):
    linter.register_checker(Emit(linter))
