"""Answers questions about Python, one JSON object per line."""
import json, sys, types, os, importlib.util, marshal

def q_script(q):
    # run a generated script with fake modules in place
    saved = dict(sys.modules)
    calls = []
    mod, attrs = q["module"], q["attrs"].split(".")
    parts = mod.split(".")
    for i in range(1, len(parts) + 1):
        m = types.ModuleType(".".join(parts[:i]))
        m.__path__ = []
        sys.modules[m.__name__] = m
        if i > 1:
            setattr(sys.modules[".".join(parts[:i-1])], parts[i-1], m)
    target = sys.modules[mod]
    for a in attrs[:-1]:
        ns = types.SimpleNamespace()
        setattr(target, a, ns)
        target = ns
    def func(*args, **kw):
        calls.append([len(args), len(kw), sys.argv[0]])
        return q["ret"]
    setattr(target, attrs[-1], func)
    saved_argv = sys.argv
    sys.argv = list(q["argv"])
    ret = {"exit": "none"}
    try:
        with open(q["path"], "rb") as f:
            code = compile(f.read(), q["path"], "exec", dont_inherit=True)
        exec(code, {"__name__": q["name"], "__builtins__": __builtins__})
    except SystemExit as e:
        ret["exit"] = "exit:%r" % (e.code,)
    except BaseException as e:
        ret["exit"] = "error: %r" % (e,)
    finally:
        sys.argv = saved_argv
        for k in list(sys.modules):
            if k not in saved:
                del sys.modules[k]
        sys.modules.update(saved)
    ret["calls"] = calls
    return ret

def same(a, b):
    """whether two code objects are the same but for the file name"""
    if type(a) != type(b):
        return False
    if isinstance(a, types.CodeType):
        for n in ("co_argcount", "co_kwonlyargcount", "co_posonlyargcount", "co_nlocals", "co_flags", "co_code", "co_names",
                  "co_varnames", "co_freevars", "co_cellvars", "co_name", "co_firstlineno"):
            if getattr(a, n) != getattr(b, n):
                return False
        if list(a.co_lines()) != list(b.co_lines()):
            return False
        return len(a.co_consts) == len(b.co_consts) and all(same(x, y) for x, y in zip(a.co_consts, b.co_consts))
    if isinstance(a, frozenset):
        return a == b
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return repr(a) == repr(b)

def filenames(co):
    ret = {co.co_filename}
    for x in co.co_consts:
        if isinstance(x, types.CodeType):
            ret |= filenames(x)
    return ret

def q_pyc(q):
    with open(q["pyc"], "rb") as f:
        data = f.read()
    with open(q["src"], "rb") as f:
        src = f.read()
    if data[:4] != importlib.util.MAGIC_NUMBER:
        return {"err": "magic number"}
    flags = int.from_bytes(data[4:8], "little")
    if flags & 1:
        if data[8:16] != importlib.util.source_hash(src):
            return {"err": "hash of the source"}
    else:
        if int.from_bytes(data[8:12], "little") != q["mtime"] & 0xffffffff:
            return {"err": "time of the source"}
        if int.from_bytes(data[12:16], "little") != len(src):
            return {"err": "size of the source"}
    code = marshal.loads(data[16:])
    if not same(code, compile(src, q["name"], "exec", dont_inherit=True)):
        return {"err": "code"}
    names = sorted(filenames(code))
    if names != [q["name"]]:
        return {"err": "file name %r" % names}
    return {"err": "", "flags": flags}

def q_compiles(q):
    try:
        compile(bytes(q["src"], "utf-8"), "x.py", "exec", dont_inherit=True)
        return {"ok": True}
    except Exception:
        return {"ok": False}

def q_tag(q):
    return {"tag": sys.implementation.cache_tag}

def q_pip(q):
    """install a wheel as pip does, and list what it made"""
    import base64, logging, stat, zipfile
    os.umask(0o022)
    logging.disable(logging.CRITICAL)
    from pip._internal.operations.install.wheel import install_wheel
    from pip._internal.models.scheme import Scheme
    from pip._internal.models.direct_url import DirectUrl, ArchiveInfo, VcsInfo, DirInfo
    url = None
    if q["url"]:
        u = q["url"]
        info = ArchiveInfo()
        if "vcs_info" in u:
            info = VcsInfo(**u["vcs_info"])
        elif "dir_info" in u:
            info = DirInfo(**u["dir_info"])
        url = DirectUrl(url=u["url"], info=info)
    try:
        install_wheel(q["name"], q["wheel"], Scheme(**q["scheme"]), q["name"], pycompile=True, warn_script_location=False,
                      direct_url=url, requested=q["requested"])
    except Exception as e:
        return {"err": repr(e)}
    files, nopyc = {}, []
    for d, _, names in os.walk(q["root"]):
        for n in names:
            f = os.path.join(d, n)
            with open(f, "rb") as fh:
                body = fh.read()
            files[f] = {"mode": stat.S_IMODE(os.lstat(f).st_mode), "body": base64.b64encode(body).decode()}
            if n.endswith(".py"):
                try:
                    compile(body, f, "exec", dont_inherit=True)
                except Exception:
                    nopyc.append(importlib.util.cache_from_source(f))
    return {"err": "", "files": files, "exe": sys.executable, "nopyc": nopyc}

for line in sys.stdin:
    q = json.loads(line)
    r = globals()["q_" + q["op"]](q)
    sys.stdout.write(json.dumps(r) + "\n")
    sys.stdout.flush()
