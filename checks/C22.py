from harness import specs
from harness.files import FileHarness
from symx.runner import Exc

BUDGET = 60
BUDGET_THOROUGH = 500
BOUNDS = (
    "paths of up to 3 components (relative or absolute, text or Path), components of up to 2 symbolic characters (any printable one other than the slash), every "
    "number of existing directories, a file shorter, longer or as long, a directory or nothing at the path, a file in the way of a directory, create_non_existing_dir given "
    "or not; hints with keys of every Latin-1 character; UTF-8 and ASCII locales; after other calls on the same tree"
)
ASSUMPTIONS = ["the root user: no permission errors", "components . and .. excluded"]
NAME = ["sym", 2, "PATH"]
specs.DOMS["PATH"] = [(32, 46), (48, 126), (161, 172), (174, 255)]

SMALL = ["any", ["list", "int1"], "int1"]
KEY = ["dict", [["sym", 1, "LATIN1"], "int1"], ["k?", "str"]]


def fams(th):
    out = []

    def add(data, at, **k):
        d = {"data": data, "at": at, "rel": False, "dirs": 9, "before": None, "create": None, "kind": "str", "pre": None, "locale": "utf-8"}
        out.append({**d, **k})

    add(SMALL, ["=x.py"], rel=[False, True], before=[None, "short", "same", "long", "dir"], create=[None, True, False], kind=["str", "Path"], locale=["utf-8", "ascii"])
    add("int1", ["=d", "=x.py"], rel=[False, True], dirs=[0, 1], before=[None, "long", "dir", "blocked"], create=[None, True, False], kind=["str", "Path"])
    add("int1", ["=d", "=e", "=x.py"], rel=[False, True], dirs=[0, 1, 2], before=[None, "short", "blocked"], create=[None, True, False], kind=["str", "Path"])
    add(KEY, ["=x.py"], rel=[False, True], locale=["utf-8", "ascii"], before=[None, "same", "long"])
    add(KEY, ["=d", "=x.py"], dirs=[0, 1], locale=["utf-8", "ascii"], create=[True, False])
    add(["dict", ["doc", ["sym", 2, "LATIN1"]], ["a", "int1"]], ["=x.py"], st={"k": "doc"}, locale=["utf-8", "ascii"])
    add(["dict", ["a", "int1"], ["b?", ["list", "str"]]], ["=x.py"], pre=["bare", "text", "file"], st={"d": "*"}, before=[None, "short", "long"])
    add("int1", [NAME], rel=[False, True], kind=["str", "Path"], sibling="a")
    add("int1", [NAME, "=x"], dirs=[0, 1], rel=[False, True], kind=["str", "Path"], create=[True, False], sibling="y")
    add("int1", ["=d", NAME], dirs=[0, 1], rel=[False, True], create=[True, False], sibling="y")
    add("int1", ["=d", ["text", [1, "PATH"], ".py"]], dirs=[1], before=[None, "long"], kind=["str", "Path"], sibling="x.py")
    add("int1", [["sym", 1, "PATH"], ["sym", 1, "PATH"], ["sym", 1, "PATH"]], dirs=[0, 1, 2], create=[True, False])
    if th:
        add(SMALL, [NAME, NAME], dirs=[0, 1], create=[True, False], kind=["str", "Path"], rel=[False, True])
        add(["dict", [["sym", 2, "LATIN1"], "int1"]], ["=x.py"], locale=["utf-8", "ascii"])
        add("int1", [["sym", 3, "PATH"]], before=[None, "long"], kind=["str", "Path"])
        add(KEY, ["=d", "=e", "=f", "=x.py"], dirs=[0, 1, 2, 3], create=[None, True, False], before=[None, "short", "blocked"], pre=["bare", "text", "file"])
    return out


class ToFile(FileHarness):
    name = "tofile"

    def jobs(self, tier):
        return fams(tier == "thorough")

    def oracle(self, inp, out, p, L):
        if isinstance(out, Exc):
            yield f"no hints for valid data: {out}"
            return
        r, names, (of, od), (nf, nd), want = out
        old, new = dict(of), dict(nf)
        path, parents = names[-1], names[:-1]
        create = bool(inp["create"])
        blocked = [q for q in parents if q in old]
        missing = [q for q in parents if q not in od and q not in old]
        if missing and not create:
            if not (isinstance(r, Exc) and "ValueError" in r.mro):
                yield f"directory {parents[-1]} does not exist and was not to be created, yet: {r if isinstance(r, Exc) else 'no error'}"
        elif blocked or path in od:
            if not isinstance(r, Exc):
                yield f"{path} cannot be written, yet no error"
        else:
            if isinstance(r, Exc):
                yield f"{path} could be written: {r}"
                return
            if new.get(path) != want:
                yield f"{path} holds {new.get(path)!r}, the hints are {want!r}"
            if {k: v for k, v in new.items() if k != path} != {k: v for k, v in old.items() if k != path}:
                yield "other files changed"
            if set(nd) != set(od) | set(missing):
                yield f"directories were {sorted(od)}, are {sorted(nd)}"
            return
        if new != old or set(nd) != set(od):
            yield "refused, but files or directories changed"


HARNESSES = [ToFile]
