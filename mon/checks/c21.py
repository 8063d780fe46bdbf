"""C21: config files hold exactly what was written, and are found by name"""
import contextlib
import io
import json
import os

import marsh

from .. import elements, files, specs
from ..core import Check
from ..oracles import observe
from ..values import freeze, same_element

check = Check(
    'C21',
    scale=3,
    rule=(
        'Random elements are written to and read from config files of all '
        'kinds; scratch directories with random files (supported, other, '
        'ambiguous, hidden, nested, directories that look like files) are '
        'searched by name, loaded and merged, with metadata and '
        'interpolations across files, and drawn as trees, each compared with '
        'a reference model of the directory. Non-trivial: distinct elements '
        'and directories.'
    ),
)
check.require(**{
    'written': 800,
    'loaded': 500,
    'found': 1000,
    'not found': 500,
    'ambiguous': 80,
    'interpolations': 150,
    'trees': 200,
    'metadata': 100,
    'decoys': 300,
    'kinds of the user': 100,
})

C = marsh.config
ConfigFileError = marsh.errors.ConfigFileError


def unordered(element):
    """YAML files are sorted by key."""
    if specs.is_map(element):
        return {key: unordered(element[key]) for key in sorted(element)}
    if specs.is_seq(element):
        return [unordered(item) for item in element]
    return element


def key(rng):
    return rng.choice('aabbcd') if rng.random() < 0.7 else specs.text(rng)


def storable(rng):
    def clean(item):
        if specs.is_map(item):
            return {k: clean(item[k]) for k in item}
        if specs.is_seq(item):
            return [clean(i) for i in item]
        return item
    return clean(elements.rand_tree(rng, rng.choice((0, 1, 2, 3)), keys=key, mixed=False))


@check.workload(quick=3000, thorough=80000)
def files_hold_elements(case):
    rng = case.rng
    element = storable(rng) if rng.random() < 0.6 else files.jsonable(rng)
    with files.scratch() as folder:
        name = 'x' + rng.choice(files.EXTENSIONS)
        path = os.path.join(folder, name)
        case.note(element=element, name=name)
        case.sample((name, element))
        image = elements.image(element)
        way = rng.choice(('dump', 'write', 'dumps', 'stdout'))
        if way == 'dump':
            C.ConfigSchema(path).dump(element)
        elif way == 'write':
            C.write(element, path)
        elif way == 'dumps':
            text = C.ConfigSchema(path).dumps(element)
            case.check(isinstance(text, str), 'no text', text=text)
            loaded = observe(C.ConfigSchema(path).loads, text)
            case.check(
                loaded.error is None
                and same_element(unordered(loaded.value), unordered(element)),
                'the element is not restored from its text',
                observed=repr(loaded), text=text,
            )
            with open(path, 'w') as file:
                file.write(text)
        else:
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                C.write(element)
            name, path = 'x.yaml', os.path.join(folder, 'x.yaml')
            with open(path, 'w') as file:
                file.write(out.getvalue())
        case.event('written')
        case.distinct(freeze(element))
        case.check(
            elements.image(element) == image, 'writing changed the element',
        )
        for read in (
            lambda: C.ConfigSchema(path).load(),
            lambda: C.load(path, resolve=False, keep_meta=True),
            lambda: C.load(name, root=folder, resolve=False, keep_meta=True),
            lambda: C.load('x', root=folder, resolve=False, keep_meta=True),
        ):
            outcome = observe(read)
            case.check(
                outcome.error is None
                and same_element(unordered(outcome.value), unordered(element)),
                'the element is not restored from the file',
                observed=repr(outcome), way=way,
            )


STEMS = ('a', 'b', 'conf', 'conf2', 'a.b', 'A', 'é', 'x y', '.h', 'cofn')
SUFFIXES = ('.yaml', '.yml', '.json', '.YAML', '.Json', '.txt', '', '.yaml.bak', '.py', '.toml', '.')


def supported(name):
    stem, ext = os.path.splitext(name)
    return bool(stem) and ext.lower() in ('.yaml', '.yml', '.json')


class Folder:
    """A directory with random files and its content."""

    def __init__(self, rng, path, depth=2):
        self.files = {}
        self.folders = {}
        os.makedirs(path, exist_ok=True)
        for _ in range(rng.choice((0, 1, 2, 4, 6))):
            name = rng.choice(STEMS) + rng.choice(SUFFIXES)
            if name in self.files or name.lower() in map(str.lower, self.folders):
                continue
            content = files.jsonable(rng, 2)
            if not specs.is_map(content) and rng.random() < 0.6:
                content = {rng.choice('ab'): content}
            if rng.random() < 0.05:
                content = specs.MISSING
            elif rng.random() < 0.15 and specs.is_map(content):
                content['_meta_'] = files.jsonable(rng, 1)
            self.files[name] = content
            files.save(os.path.join(path, name), content, rng)
        if depth:
            for _ in range(rng.choice((0, 0, 1, 2))):
                name = rng.choice(('sub', 'dir', 'd.yaml', 'conf', 'é', 'a', 'a.json', 'b.yml', 'conf.yaml'))
                if name in self.files or name in self.folders:
                    continue
                self.folders[name] = Folder(rng, os.path.join(path, name), depth - 1)

    def lookup(self, parts):
        """Folder and name of a relative path."""
        folder = self
        for part in parts[:-1]:
            if part in ('', '.'):
                continue
            folder = folder.folders.get(part)
            if folder is None:
                return None, parts[-1]
        return folder, parts[-1]

    def find(self, target):
        """The file that a name stands for, 'missing' or 'ambiguous'."""
        folder, name = self.lookup(target.split('/'))
        if folder is None:
            return 'missing'
        if os.path.splitext(name)[1]:
            if name in folder.files:
                return name
            return None if name in folder.folders else 'missing'
        found = [
            f for f in folder.files
            if supported(f) and os.path.splitext(f)[0] == name
        ]
        if not found:
            return 'missing'
        return found[0] if len(found) == 1 else 'ambiguous'

    def content(self, target):
        folder, _ = self.lookup(target.split('/'))
        return folder.files[self.find(target)]

    def names(self):
        yield from self.files
        for name, folder in self.folders.items():
            for n in folder.names():
                yield f'{name}/{n}'

    def configs(self):
        """Relative paths of all supported files."""
        return {n for n in self.names() if supported(n.split('/')[-1])}


@check.workload(quick=1500, thorough=30000)
def directories(case):
    rng = case.rng
    with files.scratch() as path:
        folder = Folder(rng, path)
        names = list(folder.names())
        case.note(names=names)
        case.distinct(tuple(names))
        relative = rng.random() < 0.5
        with files.cwd(path if relative else '/'):
            for _ in range(6):
                target = rng.choice(names) if names and rng.random() < 0.8 else rng.choice(STEMS)
                if rng.random() < 0.6:
                    target = os.path.splitext(target)[0]
                if rng.random() < 0.1:
                    target = 'nowhere/' + target
                expected = folder.find(target)
                if expected is None or target.endswith('.'):
                    continue
                given = target if relative else os.path.join(path, target)
                outcome = observe(C.find_config, given)
                case.note(target=target, observed=repr(outcome), expected=expected)
                if expected in ('missing', 'ambiguous'):
                    case.event('not found' if expected == 'missing' else 'ambiguous')
                    case.check(
                        isinstance(outcome.error, ConfigFileError),
                        f'a name that is {expected} has to be a ConfigFileError',
                    )
                    loaded = observe(C.load, given)
                    case.check(
                        isinstance(loaded.error, ConfigFileError),
                        f'loading a name that is {expected} has to be a ConfigFileError',
                        loaded=repr(loaded),
                    )
                    text = str(outcome.error)
                    if 'did you mean "' in text:
                        close = text.split('did you mean "')[1].split('"')[0]
                        case.check(
                            folder.find(os.path.relpath(close, '.' if relative else path)) != 'missing',
                            'a file that does not exist is suggested',
                            suggestion=close,
                        )
                    continue
                case.event('found')
                case.check(
                    outcome.error is None
                    and os.path.basename(outcome.value) == expected
                    and os.path.samefile(outcome.value, os.path.join(path, os.path.dirname(target), expected)),
                    'the name was resolved to something else',
                )
                loaded = observe(C.load, given, resolve=False, keep_meta=True)
                case.note(loaded=repr(loaded))
                if not supported(expected):
                    case.check(
                        isinstance(loaded.error, (ConfigFileError, ValueError)),
                        'a file of unknown type was loaded',
                    )
                else:
                    case.check(
                        loaded.error is None
                        and same_element(loaded.value, folder.content(target)),
                        'the content of another file was loaded',
                    )


def decoy(folder, name):
    path = os.path.join(folder, name)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    stem, ext = os.path.splitext(path)
    for full in {path if ext else stem + '.json', stem + '.yaml'}:
        with open(full, 'w', encoding='utf-8') as fp:
            fp.write('{"decoy": "another file"}')


def model_load(contents, concatenate, keep_meta):
    out = contents[0]
    for other in contents[1:]:
        out = elements.merge(out, other, concatenate)
    if not keep_meta and specs.is_map(out):
        out = {k: out[k] for k in out if k != '_meta_'}
    return out


@check.workload(quick=1500, thorough=40000)
def loading(case):
    rng = case.rng
    with files.scratch() as path:
        folder = Folder(rng, path)
        targets = []
        for name in folder.configs():
            stem = os.path.splitext(name)[0]
            targets.append(name)
            if folder.find(stem) == os.path.basename(name):
                targets.append(stem)
        if not targets:
            return
        targets.sort()
        chosen = [rng.choice(targets) for _ in range(rng.choice((1, 1, 2, 3)))]
        contents = [folder.content(t) for t in chosen]
        concatenate = rng.random() < 0.5
        keep_meta = rng.random() < 0.5
        resolve = rng.random() < 0.7
        expected = model_load(contents, concatenate, keep_meta)
        case.note(
            names=chosen, contents=contents, concatenate=concatenate,
            keep_meta=keep_meta, resolve=resolve, expected=expected,
        )
        if any(specs.is_map(c) and '_meta_' in c for c in contents):
            case.event('metadata')
        mode = rng.choice(('root', 'cwd', 'absolute', 'mixed'))
        given = list(chosen)
        root = None
        if mode == 'root':
            root = rng.choice((path, path + '/'))
        elif mode == 'absolute':
            given = [os.path.join(path, n) for n in given]
        elif mode == 'mixed':
            # absolute names do not depend on the root
            given = [n if rng.random() < 0.5 else os.path.join(path, n) for n in given]
            root = path
        with contextlib.ExitStack() as stack:
            if mode == 'cwd':
                where = path
            elif rng.random() < 0.5:
                # files of the same names are around that are not asked for
                where = stack.enter_context(files.scratch())
                for name in chosen:
                    # a directory may have the name of another decoy
                    with contextlib.suppress(FileExistsError, IsADirectoryError, NotADirectoryError):
                        decoy(where, name)
                case.event('decoys')
            else:
                where = '/'
            if root is not None and rng.random() < 0.3:
                root = os.path.relpath(path, where)
            stack.enter_context(files.cwd(where))
            outcome = observe(
                C.load, *given, root=root, resolve=resolve,
                keep_meta=keep_meta, concatenate=concatenate,
            )
        case.note(root=root)
        case.event('loaded')
        case.distinct(freeze(expected))
        case.check(
            outcome.error is None and same_element(unordered(outcome.value), unordered(expected)),
            'the loaded element differs',
            observed=repr(outcome),
        )


def make_kind(rng, suffixes):
    """A kind of files of the user: text of json, written differently."""
    turned = rng.random() < 0.5

    def match(cls, value):
        return C.get_ext(value).lower() in suffixes

    def dumps(self, element):
        text = json.dumps(element)
        return text[::-1] if turned else f'# {text}'

    def loads(self, encoded):
        return json.loads(encoded[::-1] if turned else encoded[1:])

    return type('Kind', (C.ConfigSchema,), {
        '__module__': __name__, 'match': classmethod(match), 'dumps': dumps, 'loads': loads,
    })


@check.workload(quick=500, thorough=10000)
def user_kinds(case):
    """Kinds of files that are registered are used from then on, in front of
    the ones before, and no longer once they are removed."""
    rng = case.rng
    registry = C.ConfigSchema.registry
    before = list(registry)
    kinds = []
    history = []
    suffixes = rng.sample(('.one', '.two', '.json', '.yaml'), rng.choice((1, 2, 3)))
    written = {}

    def kind_of(suffix):
        for own, kind in reversed(kinds):
            if suffix in own:
                return kind
        return 'own' if suffix in ('.json', '.yaml') else None

    try:
        with files.scratch() as path:
            for _ in range(rng.choice((4, 8, 12))):
                op = rng.choice(('register', 'remove', 'write', 'find', 'find', 'load', 'tree', 'load', 'write'))
                suffix = rng.choice(suffixes)
                stem = rng.choice('ab')
                full = os.path.join(path, stem + suffix)
                history.append((op, stem, suffix))
                case.note(history=history, written=written)
                kind = kind_of(suffix)
                if op == 'register':
                    own = {suffix} if rng.random() < 0.7 else set(suffixes)
                    made = make_kind(rng, own)
                    kinds.append((own, made))
                    case.check(registry.register(made) is made, 'not the registered kind')
                elif op == 'remove':
                    if kinds:
                        _, made = kinds.pop(rng.randrange(len(kinds)))
                        del registry.priority[[k is made for k in registry].index(True)]
                elif op == 'write':
                    element = {rng.choice('ab'): files.jsonable(rng, 1)}
                    seen = observe(C.write, element, full)
                    if kind is None:
                        case.check(
                            isinstance(seen.error, ConfigFileError), 'a file of an unknown kind was written', observed=seen,
                        )
                        case.check(os.path.exists(full) == (stem + suffix in written), 'a file was written')
                        continue
                    case.check(seen.error is None, 'a file of a known kind was not written', observed=seen)
                    written[stem + suffix] = kind, element
                elif op == 'tree':
                    seen = observe(C.tree, path)
                    lines = {line.split(' ', 1)[1] for line in seen.value.split('\n')[1:]}
                    expected = {name for name in written if kind_of(os.path.splitext(name)[1])}
                    case.check(lines == expected, 'the tree shows other files', observed=seen, expected=expected)
                else:
                    named = rng.random() < 0.6
                    found = [
                        name for name in written
                        if name.startswith(stem) and kind_of(os.path.splitext(name)[1])
                    ] if named else [stem + suffix] if stem + suffix in written else []
                    target = os.path.join(path, stem) if named else full
                    case.note(op=op, target=target, found=found)
                    case.event('kinds of the user', any(kind_of(os.path.splitext(n)[1]) != 'own' for n in found))
                    if op == 'find':
                        seen = observe(C.find_config, target)
                        expected = os.path.join(path, found[0]) if len(found) == 1 else None
                    elif len(found) == 1 and written[found[0]][0] is not kind_of(os.path.splitext(found[0])[1]):
                        # written by another kind
                        continue
                    else:
                        seen = observe(C.load, target)
                        expected = written[found[0]][1] if len(found) == 1 else None
                        if expected is not None:
                            expected = model_load([expected], False, False)
                            if not isinstance(seen.value, str) and specs.is_map(seen.value):
                                expected = unordered(expected)
                                seen.value = unordered(seen.value)
                    if expected is None:
                        case.check(
                            isinstance(seen.error, ConfigFileError),
                            'an ambiguous, unsupported or absent config is no error', observed=seen,
                        )
                    else:
                        case.check(
                            seen.error is None and (
                                seen.value == expected if isinstance(expected, str) else same_element(seen.value, expected)
                            ),
                            'not what was written', observed=seen, expected=expected,
                        )
    finally:
        for i in reversed(range(len(registry.priority))):
            if not any(registry.priority[i] is k for k in before):
                del registry.priority[i]
    case.distinct(repr(history))


@check.workload(quick=800, thorough=16000)
def interpolations(case):
    """References are resolved in the merged content, also to metadata."""
    rng = case.rng
    with files.scratch() as path:
        values = {
            'n': rng.randrange(1000), 's': 'text', 'b': rng.random() < 0.5,
            'f': rng.randrange(100) / 8, 'none': None,
        }
        meta = {'m': rng.randrange(1000)}
        first = {'refs': {}, '_meta_': meta}
        second = {'deep': values, 'items': [1, 2, {'z': rng.randrange(9)}]}
        expected = {'refs': {}, **second}
        for i in range(rng.randrange(1, 5)):
            reference, value = rng.choice((
                *((f'deep.{k}', v) for k, v in values.items()),
                ('_meta_.m', meta['m']),
                ('items[1]', 2),
                ('items[2].z', second['items'][2]['z']),
            ))
            if rng.random() < 0.3:
                first['refs'][f'r{i}'] = f'<${{{reference}}}>'
                expected['refs'][f'r{i}'] = f'<{value}>'
            else:
                first['refs'][f'r{i}'] = f'${{{reference}}}'
                expected['refs'][f'r{i}'] = value
            case.event('interpolations')
        order = [('one', first), ('two', second)]
        if rng.random() < 0.5:
            order.reverse()
        for name, content in order:
            files.save(os.path.join(path, name + rng.choice(files.EXTENSIONS)), content, rng)
        keep = rng.random() < 0.4
        if keep:
            expected['_meta_'] = meta
        case.event('metadata')
        case.note(first=first, second=second, expected=expected, keep_meta=keep)
        outcome = observe(C.load, *(n for n, _ in order), root=path, keep_meta=keep)
        case.distinct(freeze(expected))
        case.check(
            outcome.error is None and same_element(unordered(outcome.value), unordered(expected)),
            'the references are not resolved in the merged content',
            observed=repr(outcome),
        )
        raw = observe(C.load, *(n for n, _ in order), root=path, keep_meta=True, resolve=False)
        case.check(
            raw.error is None
            and same_element(unordered(raw.value), unordered({**first, **second})),
            'references were resolved, or lost, without resolve',
            observed=repr(raw),
        )


def read_tree(text):
    """(paths of the leaves, paths of the branches) of a tree."""
    lines = text.split('\n')
    stack = []
    entries = []
    for line in lines[1:]:
        depth = 0
        while line[depth * 4:depth * 4 + 4] in ('│   ', '    '):
            depth += 1
        mark = line[depth * 4:depth * 4 + 4]
        if mark not in ('├── ', '└── '):
            return None
        del stack[depth:]
        if len(stack) != depth:
            return None
        stack.append(line[depth * 4 + 4:])
        entries.append((tuple(stack), mark, line[:depth * 4]))
    return entries


@check.workload(quick=800, thorough=16000)
def trees(case):
    rng = case.rng
    with files.scratch() as path:
        folder = Folder(rng, path, depth=3)
        text = C.tree(path)
        case.note(tree=text, names=list(folder.names()))
        case.event('trees')
        case.check(
            text.split('\n')[0] == os.path.basename(path),
            'the tree does not start with the name of the directory',
        )
        entries = read_tree(text)
        case.check(entries is not None, 'the tree has a line that is no entry')
        case.distinct(text.split('\n', 1)[-1])
        wanted = {tuple(n.split('/')) for n in folder.configs()}
        branches = {p[:i] for p in wanted for i in range(1, len(p))}
        observed = [p for p, _, _ in entries]
        case.check(
            len(observed) == len(set(observed)) and set(observed) == wanted | branches,
            'the tree does not show exactly the configs of the directory',
            expected=sorted(wanted),
        )
        # the lines that connect the entries
        last = {}
        for p in observed:
            last[p[:-1]] = p
        for p, mark, prefix in entries:
            case.check(
                (mark == '└── ') == (last[p[:-1]] == p),
                'only the last entry of a directory ends its line',
                entry=p,
            )
            for i in range(1, len(p)):
                open_ = last[p[:i - 1]] != p[:i]
                case.check(
                    prefix[(i - 1) * 4:i * 4] == ('│   ' if open_ else '    '),
                    'the line of a directory does not reach its last entry',
                    entry=p,
                )
