"""Config files in scratch directories."""
import contextlib
import json
import os
import shutil
import tempfile

import yaml

from . import specs


@contextlib.contextmanager
def scratch():
    folder = tempfile.mkdtemp(prefix='mon-')
    try:
        yield folder
    finally:
        shutil.rmtree(folder, ignore_errors=True)


@contextlib.contextmanager
def cwd(folder):
    old = os.getcwd()
    os.chdir(folder)
    try:
        yield
    finally:
        os.chdir(old)


def plain(element):
    """The element as lists and dicts."""
    if specs.is_map(element):
        return {key: plain(element[key]) for key in element}
    if specs.is_seq(element):
        return [plain(item) for item in element]
    return element


EXTENSIONS = ('.yaml', '.yml', '.json', '.YAML', '.JSON', '.Yml')


def save(path, element, rng=None):
    os.makedirs(os.path.dirname(path) or '.', exist_ok=True)
    element = plain(element)
    # characters are escaped, or written as they are
    raw = rng.random() < 0.5 if rng else False
    # there are no characters for halves of surrogate pairs
    raw = raw and '\\ud' not in ascii(element)
    with open(path, 'w', encoding='utf-8') as file:
        if path.lower().endswith('.json'):
            json.dump(element, file, indent=rng.choice((None, 1)) if rng else None, ensure_ascii=not raw)
        else:
            yaml.safe_dump(
                element, file, sort_keys=False, allow_unicode=raw,
                default_flow_style=rng.choice((None, True, False)) if rng else None,
            )


def jsonable(rng, depth=3, key=None):
    """An element that all kinds of config files can hold."""
    key = key or (lambda r: r.choice('aabbccde'))
    roll = rng.random()
    if depth <= 0 or roll < 0.3:
        return rng.choice((
            None, True, False, 0, 1, -7, 12345678901234567890, 1.5, -0.25, 1e-7,
            '', 'x', 'true', 'null', '1', '1.5', 'a b', 'a: b', '- a', '#c', 'é日',
            '"', "it's", 'x\ny', ' x ', '~', '=', '2020-01-01', '1e3', 'yes', '.', '[', '{',
        ))
    n = rng.choice((0, 1, 2, 2, 3))
    if roll < 0.5:
        return [jsonable(rng, depth - 1, key) for _ in range(n)]
    return {key(rng): jsonable(rng, depth - 1, key) for _ in range(n)}
