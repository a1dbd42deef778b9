"""Logs hold every record once at the configured level; tracking the runtime of a function changes nothing but the log."""
import contextlib, io, logging, os, pathlib, re, tempfile, time

from hypothesis import strategies as st

import artist.raytracing  # noqa: F401
from artist.util import set_logger_config, set_runtime_logger, track_runtime

from .clean import in_child
from .core import Prop, require, same

PROP = Prop("C36", "records above and below the level, or tracked functions that call each other or fail",
            assumptions=["The loggers are configured once per process, as documented; the runtime log as often as one likes.",
                         "Messages consist of one line."])
LEVELS = [logging.DEBUG, logging.INFO, logging.WARNING, logging.ERROR, logging.CRITICAL]
NAMES = ["artist", "artist.field", "artist.optim.training", "artist.raytracing.blocking", "artist.some.module", "other"]
LINE = re.compile(r"\[(?P<time>\d{4}-\d\d-\d\d \d\d:\d\d:\d\d)(,\d+)?\]\[(?P<name>[^\]]+)\]\[(?P<level>[A-Z]+)\] - (?P<text>.*)")
words = st.text("abc xyz%{}[]-09äß", min_size=1, max_size=12).map(str.strip).filter(bool)


@st.composite
def sessions(draw):
    return dict(level=draw(st.sampled_from(LEVELS)), file=draw(st.sampled_from([None, "a.log", "deep/er/a.log"])), kind=draw(st.sampled_from(["str", "path"])),
                stdout=draw(st.booleans()), colors=draw(st.booleans()), old=draw(st.booleans()),
                records=[[draw(st.sampled_from(NAMES)), draw(st.sampled_from(LEVELS)), draw(words)] for _ in range(draw(st.integers(1, 8)))])


def fresh():
    logging.disable(logging.NOTSET)
    logging.lastResort = logging.NullHandler()
    for name in [None, *[n for n in logging.root.manager.loggerDict if n.split(".")[0] in ("artist", "other")]]:
        log = logging.getLogger(name)
        log.handlers.clear()
        log.setLevel(logging.WARNING if name is None else logging.NOTSET)


def talk(case):
    fresh()
    out = io.StringIO()
    path = pathlib.Path(case["file"]) if case["file"] else None
    if path and case["old"]:
        path.parent.mkdir(parents=True, exist_ok=True)
        path.write_text("what was there before\n")
    with contextlib.redirect_stdout(out):
        set_logger_config(level=case["level"], log_file=path if case["kind"] == "path" else case["file"], log_to_stdout=case["stdout"], colors=case["colors"])
        for name, level, text in case["records"]:
            logging.getLogger(name).log(level, "%s", text)
    logging.shutdown()
    return out.getvalue(), path and path.read_text()


def in_scratch(fn, *args):
    with tempfile.TemporaryDirectory() as folder:
        def run():
            os.chdir(folder)
            return fn(*args)
        answer = in_child(run)
    require(answer is not None and answer[0] == "ok", f"{answer and answer[1]}")
    return answer[1]


@PROP.sub("records", sessions(), quick=200, shards=2)
def records(case, ctx):
    shown, written = in_scratch(talk, case)
    want = [(n, logging.getLevelName(lv), t) for n, lv, t in case["records"] if n != "other" and lv >= case["level"]]

    def parsed(text):
        out = []
        for line in re.sub("\x1b\\[[0-9;]*m", "", text).splitlines():
            m = LINE.fullmatch(line)
            require(m is not None, f"a line of the log: {line!r}")
            out.append((m["name"], m["level"], m["text"]))
        return out

    same(parsed(shown), want if case["stdout"] else [], "records on the screen")
    require(("\x1b" in shown) == bool(case["colors"] and case["stdout"] and want), f"colours {case['colors']}: {shown!r}")
    if case["file"]:
        if case["old"]:
            require(written.startswith("what was there before\n"), "the log file loses what it held")
            written = written.split("\n", 1)[1]
        require("\x1b" not in written, "colours in the file")
        same(parsed(written), want, "records in the file")
    ctx.nontrivial(0 < len(want) < len(case["records"]))
    ctx.label("to a file" if case["file"] else "no file"); ctx.label("to the screen" if case["stdout"] else "silent")


@st.composite
def works(draw):
    """A tree of tracked functions: name, children, how it ends."""
    def node(depth):
        return dict(name=draw(st.sampled_from(["align", "trace", "train", "_x"])), wait=draw(st.sampled_from([0, 0, 2])), end=draw(st.sampled_from(["value", "value", "none", "error"])),
                    keep=draw(st.booleans()), children=[node(depth + 1) for _ in range(draw(st.integers(0, 2 if depth < 2 else 0)))])
    return dict(trees=[node(0) for _ in range(draw(st.integers(1, 3)))], level=draw(st.sampled_from(LEVELS)), again=draw(st.lists(st.sampled_from(LEVELS), max_size=3)),
                file=draw(st.sampled_from(["run.txt", "in/here/run.txt"])), kind=draw(st.sampled_from(["str", "path"])))


class Broken(Exception):
    pass


def work(case):
    fresh()
    log = set_runtime_logger(case["file"] if case["kind"] == "str" else pathlib.Path(case["file"]), case["level"])
    for level in case["again"]:
        same(set_runtime_logger("elsewhere.txt", level) is log, True, "one shared runtime logger")
    lines = []

    def perform(tree):
        """Result and expected lines of a tracked call."""
        token = object()

        def inner(a, b=1, *rest, c, **more):
            """Words about it."""
            require(a is token and b == 2 and rest == (3,) and c == 4 and more == dict(d=5), "arguments of a tracked function")
            time.sleep(tree["wait"] / 1000)
            for child in tree["children"]:
                try:
                    perform(child)
                except Broken:
                    if not tree["keep"]:
                        raise
            if tree["end"] == "error":
                raise Broken(tree["name"])
            return None if tree["end"] == "none" else token

        inner.__name__ = tree["name"]
        tracked = track_runtime(log)(inner)
        require(tracked.__name__ == tree["name"] and tracked.__doc__ == "Words about it." and tracked.__wrapped__ is inner, "name and words of a tracked function")
        lines.append((f"{tree['name']} started", None))
        before = time.perf_counter()
        result = tracked(token, 2, 3, c=4, d=5)
        lines.append((f"{tree['name']} finished in ", (tree["wait"] / 1000, time.perf_counter() - before)))
        require(result is (None if tree["end"] == "none" else token), "result of a tracked function")

    failed = []
    for tree in case["trees"]:
        try:
            perform(tree)
            failed.append(False)
        except Broken:
            failed.append(True)
    logging.shutdown()
    return lines, failed, pathlib.Path(case["file"]).read_text(), os.path.exists("elsewhere.txt")


def fails(tree):
    return tree["end"] == "error" or (not tree["keep"] and any(fails(c) for c in tree["children"]))


@PROP.sub("runtimes", works(), quick=200, shards=2)
def runtimes(case, ctx):
    lines, failed, written, elsewhere = in_scratch(work, case)
    same(failed, [fails(t) for t in case["trees"]], "errors of tracked functions")
    require(not elsewhere, "a second runtime log although there is one")
    level = ([case["level"]] + case["again"])[-1]
    if level > logging.INFO:
        lines = []
    got = written.splitlines()
    same(len(got), len(lines), f"lines in the runtime log {got}")
    for line, (text, span) in zip(got, lines):
        m = LINE.fullmatch(line)
        require(m is not None and m["name"] == "artist.runtime" and m["level"] == "INFO", f"a line of the runtime log: {line!r}")
        if span is None:
            same(m["text"], text, "a line of the runtime log")
        else:
            t = re.fullmatch(re.escape(text) + r"(\d+\.\d{3})s", m["text"])
            require(t is not None and span[0] - 1e-3 <= float(t[1]) <= span[1] + 1e-3, f"{m['text']!r} instead of {text!r} and {span} s")
    deep = any(t["children"] for t in case["trees"])
    ctx.nontrivial(deep or any(failed))
    ctx.label("logged" if lines else "not logged"); ctx.label("nested" if deep else "flat"); ctx.label("an error" if any(failed) else "no error")
