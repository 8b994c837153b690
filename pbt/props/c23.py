import contextlib
import datetime
import importlib.util
import itertools
import os
import shutil
import subprocess
import sys
import tempfile

from .. import dictionary, env
from ..core import HarnessError, Violation, require, sut as guard
from ..gens import st

RULE = (
    "scratch git repositories (own temporary directory) built from generated operations - commits (up to a thousand), release and other tags (light or annotated), side branches with merges, "
    "checkouts of earlier commits, edits, staged edits, deletions, untracked files, reverts - queried along the way in the checkout, in archives of any commit, in release directories "
    "and in bare copies; non-trivial = at least two queries with different expected versions"
)
ASSUMPTIONS = [
    "branch names contain no digits (versioneer reads those as versions in archives made by very old git versions)",
    "at most one release and one of its pre-releases tagged on a commit: archives report the release, checkouts either; histories in which the release tags of two commits are equally near are not judged",
    "archives of untagged commits are unpacked in directories without a release name",
]
EXAMPLES = {"quick": 110, "thorough": 2500}

REL = os.path.join("src", "openscm_twolayermodel", "_version.py")
SERIAL = itertools.count()
TAGS = ["0.1.0", "0.2.0", "1.0.0", "1.0.1", "2.0.0rc1", "1.2.0a3", "10.11.12", "1.0-rc1", "3", "1.0+local", "0.2.0.post1"]
OTHER = ["stable", "release-one", "archive", "test", "w1.0"]
ZONES = ["+0000", "+0530", "-0800", "+1100", "-0330"]
EDITS = ["modify", "stage", "delete", "untracked", "untracked-ignored", "stage-new", "chmod", "touch"]
DIRNAMES = ["openscm_twolayermodel-{}", "openscm_twolayermodel-{}/sub", "openscm_twolayermodel-{}/sub/sub"]
PLAIN = ["checkout", "twolayermodel-1.0", "openscm-twolayermodel-1.0", "v1.0.0", "src"]


@st.composite
def op(draw):
    what = draw(
        st.sampled_from(["commit", "commit", "tag", "tag", "tag-old", "othertag", "edit", "edit", "clean", "query", "query", "archive", "archive", "back", "home", "merge", "many"])
    )
    out = {"op": what}
    if what == "commit":
        out["n"] = draw(st.integers(1, 3))
    elif what == "many":
        out["n"] = draw(st.one_of(st.sampled_from([9, 10, 12, 99, 100, 130, 300, 1001] + dictionary.lengths(9, 1500, novel=True)), st.integers(9, 1200)))
    elif what in ("tag", "tag-old"):
        out.update(name=draw(st.sampled_from(TAGS)), annotated=draw(st.booleans()))
        if out["name"].replace(".", "").isdigit():
            # the same commit was a pre-release before
            out["pre"] = draw(st.sampled_from([None, None, "rc1", "a1", "b2", ".dev0"]))
    elif what == "othertag":
        out.update(name=draw(st.sampled_from(OTHER)), annotated=draw(st.booleans()))
    elif what == "edit":
        out["how"] = draw(st.sampled_from(EDITS))
        out["query"] = draw(st.sampled_from([True, True, False]))
    elif what == "archive":
        out.update(dir=draw(st.sampled_from(PLAIN)), back=draw(st.integers(0, 3)))
    elif what == "merge":
        out.update(back=draw(st.integers(0, 3)), n=draw(st.integers(1, 2)))
    elif what == "back":
        out["n"] = draw(st.integers(1, 3))
    return out


@st.composite
def strategy_(draw):
    what = draw(st.sampled_from(["history", "history", "history", "history", "directory"]))
    if what == "directory":
        return {
            "what": what,
            "version": draw(st.sampled_from(TAGS)),
            "dir": draw(st.sampled_from(DIRNAMES + PLAIN)),
            "link": draw(st.booleans()),
            "package": draw(st.integers(0, 15)) == 11,
        }
    return {
        "what": what,
        "checkout": draw(st.sampled_from(PLAIN + ["openscm_twolayermodel-9.9"])),
        "ops": draw(st.lists(op(), min_size=2, max_size=12)),
        "link": draw(st.integers(0, 4)) == 0,
        "abbrev": draw(st.sampled_from([None, None, 7, 9, 12, 20, 40])),
        "package": draw(st.integers(0, 15)) == 11,
        "initial_tag": draw(st.booleans()),
    }


def strategy(tier):
    return strategy_()


@contextlib.contextmanager
def scratch():
    """A scratch directory and an environment in which git sees nothing else."""
    root = tempfile.mkdtemp(prefix="git-", dir=os.environ.get("PBT_SCRATCH"))
    root = os.path.realpath(root)
    saved = dict(os.environ)
    for k in [k for k in os.environ if k.startswith("GIT_")]:
        del os.environ[k]
    os.environ.update(
        HOME=root, XDG_CONFIG_HOME=root, GIT_CONFIG_NOSYSTEM="1", GIT_CEILING_DIRECTORIES=root, GIT_TERMINAL_PROMPT="0",
        GIT_AUTHOR_NAME="a", GIT_AUTHOR_EMAIL="a@b.c", GIT_COMMITTER_NAME="a", GIT_COMMITTER_EMAIL="a@b.c", LC_ALL="C",
    )
    try:
        yield root
    finally:
        os.environ.clear()
        os.environ.update(saved)
        shutil.rmtree(root, ignore_errors=True)


class Repo:
    """The scratch repository and the model of its history."""

    def __init__(self, path, abbrev=None):
        self.path = path
        self.abbrev = abbrev or 7
        os.makedirs(os.path.dirname(os.path.join(path, REL)))
        copy_package(path)
        shutil.copy(os.path.join(env.REPO, ".gitattributes"), path)
        self.write("tracked.txt", "0\n")
        self.write("other.txt", "0\n")
        self.write(".gitignore", "*.ignored\n__pycache__\n")
        self.clock = 1600000000
        self.git("init", "-q", "-b", "main")
        if abbrev:
            self.git("config", "core.abbrev", str(abbrev))
        self.parents, self.tags, self.pre, self.dates = {}, {}, {}, {}
        self.order = []
        self.head, self.branch = None, True
        self.tip = None
        self.dirty = False
        self.files = itertools.count(1)
        self.git("add", "-A")
        self.record("initial", [])

    def write(self, name, text):
        with open(os.path.join(self.path, name), "w") as fh:
            fh.write(text)

    def git(self, *args, check=True):
        self.clock += 60
        stamp = "{} {}".format(self.clock, ZONES[self.clock // 60 % len(ZONES)])
        os.environ["GIT_AUTHOR_DATE"] = os.environ["GIT_COMMITTER_DATE"] = stamp
        res = subprocess.run(["git"] + list(args), cwd=self.path, stdout=subprocess.PIPE, stderr=subprocess.PIPE, check=False)
        if check and res.returncode:
            raise HarnessError("git {}: {}".format(args, res.stderr.decode()))
        return res.stdout.decode().strip()

    def record(self, message, parents, commit=True):
        if commit:
            self.git("commit", "-q", "--allow-empty", "-m", message)
        sha = self.git("rev-parse", "HEAD")
        self.parents[sha] = parents
        self.dates[sha] = self.git("show", "-s", "--format=%ct", sha)
        self.order.append(sha)
        self.head = sha
        if self.branch:
            self.tip = sha
        self.dirty = False

    def commit(self):
        self.write("tracked.txt", "{}\n".format(next(self.files)))
        self.git("add", "-A")
        self.record("change", [self.head])

    def many(self, count):
        """A long chain of commits without changes."""
        lines, old = [], self.head
        for i in range(count):
            self.clock += 60
            lines.append("commit refs/heads/main\ncommitter a <a@b.c> {} {}\ndata 1\nx\n".format(self.clock, ZONES[i % len(ZONES)]))
            if i == 0:
                lines.append("from {}\n".format(old))
        res = subprocess.run(
            ["git", "fast-import", "--quiet"], cwd=self.path, input="".join(lines).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, check=False
        )
        if res.returncode:
            raise HarnessError("git fast-import: {}".format(res.stderr.decode()))
        for line in self.git("log", "--reverse", "--format=%H %ct", "{}..main".format(old)).splitlines():
            sha, stamp = line.split()
            self.dates[sha] = stamp
            self.parents[sha] = [self.head]
            self.order.append(sha)
            self.head = self.tip = sha

    def reach(self, sha):
        seen, todo = set(), [sha]
        while todo:
            c = todo.pop()
            if c not in seen:
                seen.add(c)
                todo.extend(self.parents[c])
        return seen

    def expected(self, sha, dirty):
        """(possible beginnings, dirty mark or None, least length of the commit id) or None if not judged."""
        mine = self.reach(sha)
        near = sorted((len(mine - self.reach(c)), name) for c, name in self.tags.items() if c in mine)
        mark = ".dirty" if dirty else ""
        if not near:
            return ["0+untagged.{}.g".format(len(mine))], mark, 7
        if len(near) > 1 and near[0][0] == near[1][0]:
            return None
        distance, name = near[0]
        names = [name] + [self.pre[c] for c, n in self.tags.items() if n == name and c in self.pre]
        if distance == 0 and not dirty:
            return names, None, 0
        return ["{}{}{}.g".format(n, "." if "+" in n else "+", distance) for n in names], mark, self.abbrev


def copy_package(path):
    folder = os.path.join(path, "src", "openscm_twolayermodel")
    source = os.path.join(env.SRC, "openscm_twolayermodel")
    for name in os.listdir(source):
        if name.endswith(".py"):
            shutil.copy(os.path.join(source, name), folder)


def versions(tree, link, root):
    """get_versions() of the tree's own copy of the module."""
    if link:
        name = os.path.join(root, "link-{}".format(next(SERIAL)))
        os.symlink(tree, name)
        tree = name
    spec = importlib.util.spec_from_file_location("scratch_version_{}".format(next(SERIAL)), os.path.join(tree, REL))
    mod = importlib.util.module_from_spec(spec)
    with guard("get_versions"):
        spec.loader.exec_module(mod)
        return mod.get_versions()


def package_version(tree):
    """What a user sees: openscm_twolayermodel.__version__ of the tree's package."""
    code = "import sys, warnings; warnings.simplefilter('ignore'); sys.path.insert(0, sys.argv[1]); import openscm_twolayermodel as m; print(m.__version__)"
    res = subprocess.run(
        [sys.executable, "-B", "-W", "ignore", "-c", code, os.path.join(tree, "src")], stdout=subprocess.PIPE, stderr=subprocess.PIPE, check=False, cwd=tree,
        env=dict(os.environ, PYTHONPATH=""),
    )
    require(res.returncode == 0, "importing the package failed: {}", res.stderr.decode()[-400:])
    return res.stdout.decode().strip().splitlines()[-1]


def judge(got, want, sha, dirty, when, date):
    if want is None:
        return
    texts, mark, least = want
    version = got["version"]
    if mark is None:
        require(version in texts, "{}: version {!r} instead of {!r}", when, version, texts)
    else:
        good = False
        for text in texts:
            if version.startswith(text) and version.endswith(mark):
                abbrev = version[len(text) : len(version) - len(mark)]
                good = good or (len(abbrev) >= least and sha.startswith(abbrev))
        require(good, "{}: version {!r} instead of {!r} + at least {} characters of {} + {!r}", when, version, texts, least, sha, mark)
    same_date(got, date, when)
    require(got.get("full-revisionid") == sha, "{}: commit {!r} instead of {!r}", when, got.get("full-revisionid"), sha)
    require(bool(got.get("dirty")) == dirty, "{}: dirty is {!r} although it is {}", when, got.get("dirty"), dirty)
    require(not got.get("error"), "{}: error {!r}", when, got.get("error"))


def same_date(got, date, when):
    text = got.get("date")
    if text is not None:
        try:
            stamp = datetime.datetime.fromisoformat(text)
        except ValueError:
            raise Violation("{}: the commit date {!r} is no ISO 8601 date".format(when, text)) from None
        require(stamp.tzinfo is not None and stamp.timestamp() == float(date), "{}: commit date {!r} instead of the time {}", when, text, date)


def check_directory(case, ctx):
    with scratch() as root:
        named = "{}" in case["dir"]
        tree = os.path.join(root, case["dir"].format(case["version"]))
        os.makedirs(os.path.join(tree, "src", "openscm_twolayermodel"))
        copy_package(tree)
        got = versions(tree, case["link"], root)["version"]
        if named:
            require(got == case["version"], "in {} the version is {!r}", case["dir"].format(case["version"]), got)
        else:
            require(got == "0+unknown", "in {} the version is {!r}", case["dir"], got)
        if case["package"]:
            again = package_version(tree)
            require(again == got, "__version__ is {!r}, get_versions() says {!r}", again, got)
            ctx.label("whole package")
        ctx.label("release directory" if named else "unknown")
        ctx.nontrivial(named)


def check(case, ctx):
    if case["what"] == "directory":
        return check_directory(case, ctx)
    wanted = set()
    with scratch() as root:
        tree = os.path.join(root, case["checkout"])
        repo = Repo(tree, case.get("abbrev"))
        if case["initial_tag"]:
            tag(repo, {"name": "0.0.1", "annotated": True}, repo.head)
        for i, o in enumerate(case["ops"] + [{"op": "query"}]):
            when = "op {} ({})".format(i, o["op"])
            step(repo, o, root, case, ctx, wanted, when)
        if case["package"] and repo.expected(repo.head, repo.dirty) is not None:
            got = versions(tree, case["link"], root)["version"]
            again = package_version(tree)
            require(again == got, "__version__ is {!r}, get_versions() says {!r}", again, got)
            ctx.label("whole package")
    ctx.nontrivial(len(wanted) >= 2)


def tag(repo, o, sha):
    names = [o["name"]]
    if o.get("pre"):
        names.append(o["name"] + o["pre"])
    if sha in repo.tags or set(names) & (set(repo.tags.values()) | set(repo.pre.values())):
        return False
    for name in reversed(names):
        if o["annotated"]:
            repo.git("tag", "-a", "-m", "release", "v" + name, sha)
        else:
            repo.git("tag", "v" + name, sha)
    repo.tags[sha] = o["name"]
    if o.get("pre"):
        repo.pre[sha] = names[1]
    return True


def step(repo, o, root, case, ctx, wanted, when):
    what = o["op"]
    if what == "commit":
        for _ in range(o["n"]):
            repo.commit()
    elif what == "many":
        if repo.branch and not repo.dirty:
            repo.many(o["n"])
            ctx.label("many commits")
    elif what == "tag":
        tag(repo, o, repo.head)
    elif what == "tag-old":
        tag(repo, o, repo.order[len(repo.order) // 2])
    elif what == "othertag":
        args = ["tag"] + (["-a", "-m", "x"] if o["annotated"] else []) + ["-f", o["name"]]
        repo.git(*args)
        ctx.label("other tags")
    elif what == "edit":
        edit(repo, o["how"], ctx)
        if o["query"]:
            step(repo, {"op": "query"}, root, case, ctx, wanted, when)
    elif what == "clean":
        repo.git("reset", "-q", "--hard")
        repo.git("clean", "-q", "-f", "-d")
        repo.dirty = False
    elif what == "back":
        repo.git("reset", "-q", "--hard")
        for _ in range(o["n"]):
            if repo.parents[repo.head]:
                repo.head = repo.parents[repo.head][0]
        repo.git("checkout", "-q", "--detach", repo.head)
        repo.branch, repo.dirty = False, False
        ctx.label("earlier commit checked out")
    elif what == "home":
        repo.git("reset", "-q", "--hard")
        repo.git("checkout", "-q", "main")
        repo.branch, repo.dirty, repo.head = True, False, repo.tip
    elif what == "merge":
        merge(repo, o, ctx)
    elif what == "query":
        want = repo.expected(repo.head, repo.dirty)
        judge(versions(repo.path, case["link"], root), want, repo.head, repo.dirty, when, repo.dates[repo.head])
        if want is None:
            ctx.label("two equally near tags")
        else:
            wanted.add(want[0][0])
            if len(want[0]) > 1:
                ctx.label("release and pre-release of one commit")
            ctx.label("dirty" if repo.dirty else "clean", "tagged commit" if want[1] is None else "no tag yet" if want[0][0].startswith("0+untagged") else "past a tag")
    elif what == "archive":
        archive(repo, o, root, ctx, wanted, when)
    else:
        raise HarnessError(what)


def edit(repo, how, ctx):
    path = os.path.join(repo.path, "other.txt")
    if how in ("modify", "stage", "delete", "chmod") and not repo.git("ls-tree", "HEAD", "other.txt"):
        return  # its deletion has been committed
    if how == "modify":
        repo.write("other.txt", "changed {}\n".format(next(repo.files)))
        repo.dirty = True
    elif how == "stage":
        repo.write("other.txt", "changed {}\n".format(next(repo.files)))
        repo.git("add", "other.txt")
        repo.dirty = True
    elif how == "stage-new":
        repo.write("new.txt", "{}\n".format(next(repo.files)))
        repo.git("add", "new.txt")
        repo.dirty = True
    elif how == "delete":
        if os.path.exists(path):
            os.unlink(path)
        repo.dirty = True
    elif how == "untracked":
        repo.write("untracked-{}.txt".format(next(repo.files)), "x\n")
    elif how == "untracked-ignored":
        repo.write("x.ignored", "x\n")
    elif how == "chmod":
        if os.path.exists(path) and not repo.dirty:
            os.chmod(path, os.stat(path).st_mode ^ 0o111)
            repo.dirty = True
    elif how == "touch":
        if os.path.exists(path):
            os.utime(path, (repo.clock, repo.clock))
    ctx.label("edit " + how)


def merge(repo, o, ctx):
    """A side branch from an earlier commit, merged into the current one."""
    repo.git("reset", "-q", "--hard")
    repo.dirty = False
    start = repo.head
    for _ in range(o["back"]):
        if repo.parents[start]:
            start = repo.parents[start][0]
    here, was_branch = repo.head, repo.branch
    if start == here:
        return
    repo.git("checkout", "-q", "--detach", start)
    side = start
    for _ in range(o["n"]):
        repo.write("side-{}.txt".format(next(repo.files)), "x\n")
        repo.git("add", "-A")
        repo.git("commit", "-q", "-m", "side")
        sha = repo.git("rev-parse", "HEAD")
        repo.parents[sha] = [side]
        side = sha
    if was_branch:
        repo.git("checkout", "-q", "main")
    else:
        repo.git("checkout", "-q", "--detach", here)
    repo.git("merge", "-q", "--no-ff", "-m", "merge", side)
    repo.branch = was_branch
    repo.record("merge", [here, side], commit=False)
    ctx.label("merge")


def archive(repo, o, root, ctx, wanted, when):
    sha = repo.order[max(0, len(repo.order) - 1 - o["back"])]
    dest = os.path.join(root, "archive-{}".format(next(SERIAL)), o["dir"])
    os.makedirs(dest)
    tar = subprocess.run(["git", "archive", "--format=tar", sha], cwd=repo.path, stdout=subprocess.PIPE, check=True)
    subprocess.run(["tar", "-x", "-C", dest], input=tar.stdout, check=True)
    got = versions(dest, False, root)
    name = repo.tags.get(sha)
    want = name if name is not None else "0+unknown"
    wanted.add("archive " + want)
    require(got["version"] == want, "{}: in an archive of {} the version is {!r} instead of {!r}", when, "the tagged commit" if name else "an untagged commit", got["version"], want)
    require(got.get("full-revisionid") == sha, "{}: commit {!r} instead of {!r}", when, got.get("full-revisionid"), sha)
    same_date(got, repo.dates[sha], when)
    if sha in repo.pre:
        ctx.label("archive of a release and pre-release")
    require(not got.get("dirty"), "{}: an archive is called dirty", when)
    ctx.label("archive of a tagged commit" if name else "archive of an untagged commit")
