"""C32: plotting, animation and analysis functions leave their arguments alone and write files only when asked to."""
import ast
from .origins import *
from sa.consts import Reach, Const, UNKNOWN, NOTNONE

TECHNIQUE = ("interprocedural origin (points-to) analysis of every modifying statement against the functions' parameters, and constant "
             "propagation with three-valued tests through each function, its helpers and callbacks: with the saving option off or left "
             "out, no call that writes to the file system may be reachable, whatever the other arguments are")

WHERE = ("utils", "hexplot", "turtle", "analysis", "vis")
FS = {"os.remove", "os.unlink", "os.mkdir", "os.makedirs", "os.rename", "os.replace", "os.rmdir", "os.removedirs", "os.open", "os.symlink",
      "os.link", "os.truncate", "os.chmod", "os.mkfifo", "os.system", "os.popen", "numpy.save", "numpy.savez", "numpy.savetxt",
      "numpy.savez_compressed", "pickle.dump", "json.dump", "marshal.dump", "shelve.open", "sqlite3.connect", "matplotlib.pyplot.savefig",
      "matplotlib.pyplot.imsave", "matplotlib.image.imsave", "networkx.write_gml", "networkx.write_graphml", "networkx.write_gexf",
      "networkx.write_edgelist", "networkx.write_adjlist", "networkx.write_gpickle", "networkx.write_weighted_edgelist",
      "logging.FileHandler", "logging.basicConfig", "zipfile.ZipFile", "tarfile.open", "gzip.open", "bz2.open", "lzma.open", "csv.writer",
      "pickle.Pickler"}
FS_MODULES = ("shutil.", "tempfile.", "subprocess.")
FS_METHODS = {"savefig", "save", "write_text", "write_bytes", "tofile", "to_csv", "to_json", "to_html", "to_excel", "to_pickle", "mkdir",
              "unlink", "touch", "print_figure", "print_png", "imsave", "write_html", "write_png", "draw_png"}
OPENERS = {"open", "io.open", "codecs.open", ".open", "gzip.open"}
ASKS = ("save", "write", "export", "dump", "store")
NAMES = ("file", "path", "filename", "out", "output", "fname", "dest")


def writes(name, node, args, kws):
    """a call that writes to the file system; the text names it"""
    if name in OPENERS:
        i = 0 if name == ".open" else 1
        mode = kws.get("mode", args[i] if len(args) > i else Const("r"))
        if isinstance(mode, Const) and isinstance(mode.v, str) and not set(mode.v) & set("wax+"):
            return None
        if mode is UNKNOWN and name == ".open":
            return None
        return "%s(..., %r)" % (name, mode.v if isinstance(mode, Const) else "?")
    if name in FS or any(name.startswith(m) for m in FS_MODULES):
        return name
    if name.startswith(".") and name[1:] in FS_METHODS:
        return name[1:] + "()"
    return None


def asks(f):
    """the parameters that ask for a file"""
    out = []
    for p in f.params + f.kwonly:
        q = p.lower()
        words = q.split("_")
        if any(w in ASKS for w in words) or any(w in NAMES for w in words):
            out.append(p)
    return out


def scenarios(f):
    """what is known of the arguments when nothing was asked for"""
    ps = f.params + f.kwonly
    base = {p: UNKNOWN for p in ps}
    if f.vararg:
        base[f.vararg] = UNKNOWN
    if f.kwarg:
        base[f.kwarg] = UNKNOWN
    out = []
    q = asks(f)
    left_out = dict(base)
    for p in q:
        if p in f.defaults:
            d = f.defaults[p]
            left_out[p] = Const(d.value) if isinstance(d, ast.Constant) else NOTNONE
    out.append(("nothing asked for", left_out))
    off = dict(left_out)
    for p in q:
        if p in f.defaults and isinstance(f.defaults[p], ast.Constant) and f.defaults[p].value in (False, None, True):
            off[p] = Const(f.defaults[p].value and False if f.defaults[p].value is not None else None)
    if q:
        out.append(("switched off", off))
    # every argument left out that can be
    dflt = dict(base)
    for p, d in f.defaults.items():
        dflt[p] = Const(d.value) if isinstance(d, ast.Constant) else NOTNONE
    out.append(("the defaults", dflt))
    return out


def check_files(C, pkg, f):
    rel = f.qual.replace("netomaton.", "", 1)
    site = (f.mod.rel, f.node.lineno, f.name)
    show = f.name == "show_network"
    TOKEN = "<the name given>"
    bad, seen, calls = [], set(), [0]
    for label, env in scenarios(f):
        if show:
            env = dict(env)
            env[f.params[1]] = Const(TOKEN)

        def visit(name, node, args, kws, sure, fn, walk):
            calls[0] += 1
            w = writes(name, node, args, kws)
            if w is None:
                return
            if show and name in OPENERS and args and isinstance(args[0], Const) and args[0].v == TOKEN:
                return
            k = (fn.mod.rel, node.lineno)
            if k not in seen:
                seen.add(k)
                bad.append((label, w, "%s:%d (%s)" % (k[0], k[1], fn.name)))
        Reach(pkg, visit).run(f, env)
    for label, w, where in bad:
        C.violated("%s writes no file unasked" % rel, "%s is reached from %s with %s" % (w, rel, label), where)
    if not bad:
        C.proved("%s writes no file unasked" % rel, "%d external calls reachable with %s" % (calls[0], ", ".join(asks(f)) or "any arguments"), site)


def exempt(f, p):
    """drawing on a given turtle is what is asked for"""
    return p == "turtle"


READS = ("plot", "animate", "show", "draw", "pos", "abs", "get", "to")


def check_self(C, pkg, f):
    """a method that only shows or reports leaves its object alone"""
    if f.cls is None or f.static or not f.params or f.name.strip("_").split("_")[0] not in READS:
        return
    rel = f.qual.replace("netomaton.", "", 1)
    ev = [e for e in pkg.events_of(("param", f.qual, f.params[0]))]
    for e in ev:
        C.violated("%s leaves its object as it is" % rel, "%s of %s is modified: %s" % (level_text(e.level), f.params[0], e.how), "%s:%d (%s)" % e.site)
    if not ev:
        C.proved("%s leaves its object as it is" % rel, "", (f.mod.rel, f.node.lineno, f.name))


def check(C):
    pkg = package(C.repo)
    for m in sorted(pkg.modules.values(), key=lambda m: m.name):
        if not any(part in WHERE for part in m.name.split(".")[1:]):
            continue
        for f, private in sorted(entry_points(pkg, m), key=lambda x: x[0].qual):
            if f.parent is not None:
                continue
            C.group(f.qual, check_function, C, pkg, f, exempt)
            C.group(f.qual, check_files, C, pkg, f)
            C.group(f.qual, check_self, C, pkg, f)
