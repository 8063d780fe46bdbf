"""Which lines of the repository were executed (for the evidence)."""
import os
import sys
import types

TOOL = 4


class Reach:

    def __init__(self, folder):
        self.folder = folder
        self.lines = set()

    def start(self):
        """Before the repository is imported."""
        monitoring = getattr(sys, 'monitoring', None)
        if monitoring is None:
            return
        monitoring.use_tool_id(TOOL, 'reach')
        monitoring.register_callback(TOOL, monitoring.events.LINE, self._line)
        monitoring.set_events(TOOL, monitoring.events.LINE)

    def _line(self, code, line):
        if code.co_filename.startswith(self.folder):
            self.lines.add((code.co_filename[len(self.folder):], line))
        # each line is reported once
        return sys.monitoring.DISABLE

    def summary(self):
        """Reached and existing lines of functions by file."""
        out = {}
        for root, _, files in os.walk(self.folder):
            for name in sorted(files):
                if not name.endswith('.py'):
                    continue
                path = os.path.join(root, name)
                short = path[len(self.folder):]
                with open(path) as file:
                    lines = executable(compile(file.read(), path, 'exec'))
                reached = {line for f, line in self.lines if f == short}
                if reached & lines:
                    out[short] = (
                        f'{len(reached & lines)} of {len(lines)} lines of functions',
                        sorted(lines - reached),
                    )
        return out


def executable(code, inside=False):
    lines = set()
    if inside:
        lines |= {
            line for _, _, line in code.co_lines()
            if line is not None and line != code.co_firstlineno
        }
    for const in code.co_consts:
        if isinstance(const, types.CodeType):
            is_class = const.co_flags & 0x2 == 0
            lines |= executable(const, inside=not is_class)
    return lines
