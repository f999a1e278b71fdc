"""C20 - logger configuration keeps one handler of each kind.

All sequences of configuration calls up to a length (levels, stream handlers, file handlers and their subclasses, both at
once, none) are run against a model of the logger; after every call the handlers and the level are compared, and a message is
sent whose copies are counted in every output that was ever configured."""

import io
import itertools
import logging
import logging.handlers
import os
import shutil
import sys
import tempfile

from mc.core import Result, require
from mc import lib  # noqa: F401
from gerabaldi.helpers import configure_logger

BOUNDS = {
    'quick': 'all sequences of 1-4 configuration calls over 17 kinds of call, then a message of each level',
    'thorough': 'all sequences of 1-5 configuration calls over 17 kinds of call, then a message of each level',
}
CHUNK = 8
LOG = logging.getLogger('gerabaldi')
START = None


class Stream(logging.StreamHandler):
    pass


class Sub(Stream):
    pass


OPS = {
    'none': (None, None, None),
    'info': (logging.INFO, None, None),
    'debug': (logging.DEBUG, None, None),
    'notset': (0, None, None),
    'stream': (None, 'stream', None),
    'stream again': (None, 'same', None),
    'sub stream': (logging.WARNING, 'sub', None),
    'file': (None, None, 'file'),
    'file again': (None, None, 'same'),
    'rotating': (logging.ERROR, None, 'rot'),
    'both': (None, 'stream', 'file'),
    'all': (logging.INFO, 'sub', 'rot'),
    'stream positional': (logging.DEBUG, 'stream', None),
    'file info': (logging.INFO, None, 'file'),
    # The first of the handlers supplied so far, once more
    'first stream': (None, 'first', None),
    'first file': (logging.DEBUG, None, 'first'),
    # A handler with a level of its own
    'strict stream': (logging.INFO, 'strict', None),
}
NAMES = list(OPS)


def setup():
    global START
    START = (list(LOG.handlers), LOG.level, LOG.propagate)


def cases(tier):
    depth = 4 if tier == 'quick' else 5
    for n in range(depth):
        for pre in itertools.product(range(len(NAMES)), repeat=n):
            for user in (0, 1) if n < 3 else (0,):
                yield {'pre': list(pre), 'user': user}


def run(case):
    res = Result()
    folder = tempfile.mkdtemp(prefix='mc20_')
    try:
        for last in range(len(NAMES)):
            one(case['pre'] + [last], case['user'], folder, res)
    finally:
        reset()
        shutil.rmtree(folder, ignore_errors=True)
    return res


def reset():
    for h in list(LOG.handlers):
        LOG.removeHandler(h)
        if h not in START[0]:
            h.close()
    for h in START[0]:
        LOG.addHandler(h)
    LOG.setLevel(START[1])


def one(ops, user, folder, res):
    reset()
    LOG.setLevel(logging.INFO)
    default = [h for h in START[0] if isinstance(h, logging.StreamHandler)]
    require(len(default) == 1 and len(START[0]) == 1, 'the package starts with handlers {}', START[0])
    model = {'stream': default[0], 'file': None, 'level': logging.INFO}
    other = []
    if user:
        # A handler of another kind, added by the user directly, is none of the function's business
        other = [logging.handlers.MemoryHandler(1000)]
        LOG.addHandler(other[0])
    every, made, hist, levels = [], [], [], {}
    quiet = io.StringIO()
    try:
        for n, op in enumerate(ops):
            level, stream, file = OPS[NAMES[op]]
            hist.append(NAMES[op])
            kw = {}
            if stream == 'same':
                stream = model['stream']
            elif stream == 'first':
                stream = next((h for h in made if not isinstance(h, logging.FileHandler)), default[0])
            elif stream:
                strict = stream == 'strict'
                stream = (Sub if stream == 'sub' else logging.StreamHandler)(io.StringIO())
                if strict:
                    stream.setLevel(logging.ERROR)
                levels[id(stream)] = stream.level
                every.append(stream)
                made.append(stream)
            if file == 'same':
                file = model['file']
            elif file == 'first':
                file = next((h for h in made if isinstance(h, logging.FileHandler)), None)
            elif file:
                path = os.path.join(folder, f'{len(os.listdir(folder))}.log')
                file = logging.FileHandler(path, 'w') if file == 'file' else logging.handlers.RotatingFileHandler(path)
                levels[id(file)] = file.level
                every.append(file)
                made.append(file)
            if level is not None:
                kw['logging_level'] = level
                model['level'] = level
            if stream is not None:
                kw['stream_handler'] = stream
                model['stream'] = stream
            if file is not None:
                kw['file_handler'] = file
                model['file'] = file
            configure_logger(**kw)
            res.step()
            want = [h for h in (model['stream'], model['file']) if h is not None] + other
            got = LOG.handlers
            require(len(got) == len(want) and all(any(h is w for w in want) for h in got), 'after {} the handlers are {}, expected {}', hist, got, want)
            require(LOG.level == model['level'], 'after {} the level is {} instead of {}', hist, LOG.level, model['level'])
        # Each message once per configured output. Without a level of its own the logger has the level of its parent
        shows = model['level'] or LOG.parent.getEffectiveLevel()
        texts = {getattr(logging, lv): f'the {lv} message' for lv in ('DEBUG', 'INFO', 'WARNING', 'ERROR', 'CRITICAL')}
        before = {id(h): content(h) for h in every}
        old = default[0].stream
        dynamic = old is sys.stderr
        sys.stderr, keep = quiet, sys.stderr
        try:
            # The default handler may look the stream up at each message, or have kept it
            if default[0].stream is not quiet:
                default[0].setStream(quiet)
                dynamic = False
            for lv, text in texts.items():
                LOG.log(lv, text)
        finally:
            sys.stderr = keep
            if default[0].stream is not old and not dynamic:
                default[0].setStream(old)
        for h in every:
            after = content(h)
            active = h in (model['stream'], model['file'])
            for lv, text in texts.items():
                new = after.count(text) - before[id(h)].count(text)
                shown = active and lv >= max(levels[id(h)], shows)
                require(new == int(shown), 'after {} a message of level {} appears {} times in {} configured output', hist, lv, new, 'a' if active else 'a no longer')
        for lv, text in texts.items():
            shown = model['stream'] is default[0] and lv >= max(shows, default[0].level)
            require(quiet.getvalue().count(text) == int(shown), 'after {} the default stream shows the message {} times', hist, quiet.getvalue().count(text))
    finally:
        for h in made:
            LOG.removeHandler(h)
            h.close()
        for h in other:
            LOG.removeHandler(h)
    res.trace()
    res.state(model['level'], model['stream'] is default[0], type(model['stream']).__name__, type(model['file']).__name__, len(ops))
    res.outcome(tuple(hist))


def content(h):
    h.flush()
    if isinstance(h, logging.FileHandler):
        with open(h.baseFilename) as f:
            return f.read()
    return h.stream.getvalue()
