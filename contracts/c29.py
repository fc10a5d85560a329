"""C29: deleting files by extension (general.delete_files_with_extension).

Nothing real is at risk: the proof runs on an abstract os module, and the runs on the real code work in a scratch folder
with every deleting call of os and shutil replaced by one that refuses anything outside of it."""
import os
import shutil
import tempfile
import numpy as np
from vc.engine import harness, Unsupported, Falsified
from vc.loops import MapSeq, Opaque


def special(n):
    if n.startswith(("vc_", "__")):
        raise AttributeError(n)


class Word:
    """an abstract name or text; nothing is known about its characters"""

    def __init__(self, what, matches=None, ext=None, isdir=False, dangling=False):
        self._what, self._matches, self._ext, self._isdir, self._dangling = what, matches, ext, isdir, dangling

    def endswith(self, x):
        if self._matches is None or x is not self._ext:
            raise Unsupported("the end of a text")
        return self._matches

    def __getattr__(self, n):
        special(n)
        raise Unsupported("%s of a text" % n)

    def __add__(self, o):
        return Word("text")
    __radd__ = __mod__ = __rmod__ = __add__

    def __str__(self):
        raise Unsupported("the characters of a text")
    __format__ = __iter__ = __len__ = __getitem__ = __eq__ = __lt__ = __bool__ = __contains__ = lambda self, *a: self.__str__()
    __hash__ = object.__hash__


class Joined(Word):
    def __init__(self, folder, name):
        Word.__init__(self, "path")
        self._at = folder, name


def fake_os(cx, folder, listing, tree, log):
    class Path:
        def __getattr__(self, n):
            special(n)
            raise Unsupported("os.path." + n)

        def join(self, a, b):
            return Joined(a, b)

        def isdir(self, p):
            if isinstance(p, Joined) and isinstance(p._at[1], Word) and p._at[1]._matches is not None:
                return p._at[1]._isdir
            raise Unsupported("isdir")

        def isfile(self, p):
            return not self.isdir(p) and self.exists(p)

        def exists(self, p):
            self.isdir(p)
            return not p._at[1]._dangling

        def lexists(self, p):
            self.isdir(p)
            return True

    class OS:
        path = Path()

        def __getattr__(self, n):
            special(n)
            raise Unsupported("os." + n)

        def listdir(self, p):
            if p is not folder:
                raise Unsupported("listing another folder")
            return listing

        def walk(self, top, topdown=True, onerror=None, followlinks=False):
            if top is not folder or followlinks or onerror is not None:
                raise Unsupported("walking in another way")
            return tree

        def remove(self, p):
            log.append(p)
        unlink = remove
    return OS()


def entries(cx, tag, ext, dirs):
    out = [Word("a file that matches", True, ext), Word("a file that does not", False, ext)]
    out.append(Word("a link to nothing that matches", True, ext, dangling=True))
    if dirs:
        out += [Word("a folder that matches", True, ext, True), Word("a folder that does not", False, ext, True)]
    return MapSeq(cx, tag, out)


@harness("C29", cases=["the folder", "everything below"], con=0,
         assumes=["os.listdir gives every entry of a folder once; os.walk gives every folder below (not through links) once, with "
                  "its files, links included, once; os.path.isdir tells folders; os.remove removes its argument and nothing else"])
def delete(cx, how):
    """any folder: any number of entries, any number of folders below it"""
    if not cx.symbolic:
        return
    below = how == "everything below"
    folder, ext = Word("folder"), Word("extension")
    log = []
    listing = entries(cx, "entries", ext, True)
    seqs = [entries(cx, "files %d" % k, ext, False) for k in range(2)]
    roots = [folder, Word("a folder below")]
    tree = MapSeq(cx, "walk", [(roots[k], Opaque("folders"), seqs[k]) for k in range(2)])
    fos = fake_os(cx, folder, listing, tree, log)
    cx.world.instead["os"] = fos
    cx.world["general"].os = fos
    r = cx.call(cx.gen.delete_files_with_extension, folder, ext, *((True,) if below else (cx.choice("given", [(), (False,)]))))
    want = [(roots[k], w) for k in range(2) for w in seqs[k].reps if w._matches] if below else \
        [(folder, w) for w in listing.reps if w._matches and not w._isdir]
    for s in (seqs + [tree] if below else [listing]):
        cx.ensure("delete: every entry is looked at", s.done)
    cx.ensure("delete: exactly the matching files are removed",
              len(log) == len(want) and all(isinstance(p, Joined) and p._at[0] is a and p._at[1] is b for p, (a, b) in zip(log, want)))


# ---------------------------------------------------------------- the real code in a scratch folder
class Guard:
    """deleting calls work inside the scratch folder and nowhere else"""
    NAMES = [("os", "remove"), ("os", "unlink"), ("os", "rmdir"), ("os", "removedirs"), ("os", "rename"), ("os", "replace"),
             ("os", "renames"), ("os", "truncate"), ("os", "chmod"), ("os", "chown"), ("shutil", "rmtree"), ("shutil", "move")]
    NEVER = [("os", "system"), ("os", "popen"), ("os", "kill"), ("os", "execv"), ("os", "fork"), ("os", "posix_spawn")]

    def __init__(self, scratch):
        self.scratch = os.path.realpath(scratch)

    def __enter__(self):
        self.old = []
        mods = {"os": os, "shutil": shutil}

        def inside(f, name):
            def g(*a, **k):
                for p in a[:2 if "re" in name[:2] or name == "move" else 1]:
                    if isinstance(p, (str, bytes, os.PathLike)):
                        q = os.path.join(os.path.realpath(os.path.dirname(os.path.abspath(os.fsdecode(p)))), "x")
                        if not q.startswith(self.scratch + os.sep):
                            raise Falsified("delete: nothing outside the folder is touched", "%s(%r)" % (name, p))
                    else:
                        raise Falsified("delete: nothing outside the folder is touched", "%s(%r)" % (name, p))
                if k.get("dir_fd") is not None:
                    raise Falsified("delete: nothing outside the folder is touched", "dir_fd")
                return f(*a, **k)
            return g

        def never(name):
            def g(*a, **k):
                raise Falsified("delete: nothing outside the folder is touched", name)
            return g
        for m, n in self.NAMES + self.NEVER:
            if hasattr(mods[m], n):
                f = getattr(mods[m], n)
                self.old.append((mods[m], n, f))
                setattr(mods[m], n, inside(f, n) if (m, n) in self.NAMES else never(n))

    def __exit__(self, *a):
        for m, n, f in self.old:
            setattr(m, n, f)


def listing_of(top):
    out = set()
    for root, dirs, files in os.walk(top):
        out |= {os.path.relpath(os.path.join(root, x), top) for x in dirs + files}
    return out


@harness("C29", sym=False, bounded="folders of up to 12 entries, 3 levels deep, with links", con=150)
def real_delete(cx):
    rng = np.random.default_rng(cx.int_("seed", 0, 10 ** 9))
    below = cx.flag("below")
    ext = [".txt", ".png", "", "~", ".tar.gz", "txt"][cx.choice("ext", range(6))]
    names = ["a.txt", "b.txt", ".txt", "txt", "a.txt.bak", "c.png", "d.PNG", "e.Txt", "f.tar.gz", "g.gz", "h~", "i txt", "j.txtx",
             "k", "l..txt", "m.txt "]
    top = tempfile.mkdtemp(prefix="c29-")
    here = os.getcwd()
    try:
        work, other = os.path.join(top, "work"), os.path.join(top, "other")
        want = set()

        def fill(d, depth, rel, dead):
            os.mkdir(d)
            for x in rng.choice(names, int(rng.integers(0, 7)), replace=False):
                if rng.integers(6) == 0 and depth:
                    if rng.integers(3):
                        fill(os.path.join(d, x), depth - 1, os.path.join(rel, x), dead)
                    else:
                        os.symlink(other, os.path.join(d, x))
                        want.add(os.path.join(rel, x))
                    continue
                if rng.integers(6) == 0:
                    os.symlink(os.path.join(other, ["a.txt", "none"][int(rng.integers(2))]), os.path.join(d, x))
                else:
                    open(os.path.join(d, x), "w").close()
                if not (x.endswith(ext) and (below or not rel)) or dead:
                    want.add(os.path.join(rel, x))
            if rel:
                want.add(rel)
            if depth and rng.integers(2):
                fill(os.path.join(d, "sub%d" % depth), depth - 1, os.path.join(rel, "sub%d" % depth), dead)
        os.mkdir(other)
        for x in names:
            open(os.path.join(other, x), "w").close()
        fill(work, 2, "", False)
        os.chdir(other)
        given = [work, work + "/", os.path.join("..", "work")][int(rng.integers(3))]
        others = listing_of(other)
        with Guard(top):
            import contextlib, io
            with contextlib.redirect_stdout(io.StringIO()):
                args = (given, ext) + (() if not below and rng.integers(2) else (below,))
                cx.call(cx.gen.delete_files_with_extension, *args)
        now = listing_of(work)
        cx.ensure("delete: exactly the matching files are removed", now == want,
                  "left %s, wrongly gone %s" % (sorted(now - want)[:3], sorted(want - now)[:3]))
        cx.ensure("delete: nothing outside the folder is touched", listing_of(other) == others)
    finally:
        os.chdir(here)
        shutil.rmtree(top)
