"""C31: report files, solved-case files and the command-line entry points."""
import builtins, io, itertools, os, re, shutil, subprocess, sys, tempfile
import numpy as np
from mc.core import Result, canon, REPO, OUT, ERR
from mc.space import *
from mc import api
from mc.checks import c30

PROP = "C31"
LEVEL = "model_checking"
RULE = ("states: (analysis, outcome, report-file state, solved-case-file state, report on/off) and every sequence of two runs into the same files, in a scratch directory; every way of failing to open a file "
        "(missing parent, directory, path below a file, dangling link, injected errors of open()); command lines: every option with every value of its alphabet and every bad argument, compared with the library call. "
        "Non-trivial: the analysis ran")
ASSUMPTIONS = ["solved-case names are Python identifiers (a case file is a Python function of that name)", "errors while writing an opened file are outside the property",
               "everything happens in a scratch directory created and removed by the check"]
AN = ["runpf", "rundcpf", "runopf", "rundcopf", "runuopf", "runduopf", "runcpf", "runopf_w_res"]
REPORT = ["none", "absent", "empty", "content", "space", "link", "deep", "dir", "noparent", "belowfile", "nul", "eperm", "eio", "emfile"]
BADREP = ("dir", "noparent", "belowfile", "nul", "eperm", "eio", "emfile")
SOLVED = ["none", "py", "noext", "mat", "oldpy", "oldmat", "dir", "noparent", "belowfile", "matnoparent", "matdir", "eperm", "mateperm"]
BADSOL = ("dir", "noparent", "belowfile", "matnoparent", "matdir", "eperm", "mateperm")
PRE = "previous contents\n"
ERRS = {"eperm": PermissionError(13, "Permission denied"), "eio": OSError(5, "Input/output error"), "emfile": OSError(24, "Too many open files")}


def case(net, an):
    p = c30.NETS[net]()
    if an == "runopf_w_res":
        ng = len(p["gen"])
        p["reserves"] = {"zones": np.ones((1, ng)), "req": np.array([20.]), "cost": np.arange(1., ng + 1), "qty": np.full(ng, 25.)}
    return p


def call(an, p, opt, fname="", solved=""):
    from pypower import api as A
    from pypower.runcpf import runcpf
    if an == "runcpf":
        t = api.clone(p)
        t["bus"][-1, [PD, QD]] += [60., 20.]
        opt = dict(opt, CPF_STOP_AT=.1)
        return runcpf(p, t, opt, fname, solved)
    f = getattr(A, an)
    a = [p, opt] + ([fname, solved] if fname or solved else [])
    r = f(*a)
    return r if isinstance(r, tuple) else (r, r["success"])


def limited(an):
    """options that make the analysis stop early"""
    return dict(PF_MAX_IT=0, PDIPM_MAX_IT=1)


cut = lambda s: re.sub(r"\d+\.\d\d seconds", "T seconds", s)


def build(tier):
    quick = tier == "quick"
    items = []
    nets = ["b3"] if quick else ["b3", "rep", "b2"]
    for n in nets:
        for an in AN:
            for rep in REPORT:
                lead = an in ("runpf", "runopf", "runcpf", "runuopf")
                if quick and not lead and rep in ("space", "deep", "link", "empty", "eio", "emfile", "belowfile"):
                    continue
                items.append({"k": "files", "net": n, "an": an, "rep": rep, "sol": SOLVED if not quick else SOLVED if rep == "none" or lead and rep == "content" else ["none", "py"], "full": not quick or lead and rep in ("none", "content")})
            for an2 in AN:
                if not quick or an2 in ("runpf", "runopf") or an2 == an:
                    items.append({"k": "pair", "net": n, "an": an, "an2": an2})
    cli = cmdlines(quick)
    for i in range(0, len(cli), 12):
        items.append({"k": "cli", "lo": i, "n": 12, "quick": quick})
    items.append({"k": "process"})
    return items


def run(item):
    r = Result()
    tmp = tempfile.mkdtemp(prefix="c31_")
    cwd = os.getcwd()
    try:
        os.chdir(tmp)
        globals()["k_" + item["k"]](r, item, tmp)
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)
    r.states.add(canon(item))
    return r


def place(tmp, kind, solved):
    """create the file state; -> (name handed to the code, path to look at, text that must remain in front)"""
    j = lambda *a: os.path.join(tmp, *a)
    ext = {True: "", False: ".txt"}[solved]
    if kind == "none":
        return "", None, ""
    if kind == "absent":
        return j("out.txt"), j("out.txt"), ""
    if kind in ("empty", "content"):
        with open(j("out.txt"), "w") as f:
            f.write(PRE if kind == "content" else "")
        return j("out.txt"), j("out.txt"), PRE if kind == "content" else ""
    if kind == "space":
        return "my r\u00e9port 1.txt", j("my r\u00e9port 1.txt"), ""          # relative to the current directory
    if kind == "link":
        with open(j("real.txt"), "w") as f:
            f.write(PRE)
        os.symlink(j("real.txt"), j("lnk.txt"))
        return j("lnk.txt"), j("real.txt"), PRE        # the report goes where the link points
    if kind == "deep":
        os.makedirs(j("a", "b"))
        return os.path.join("a", "b", "out"), j("a", "b", "out"), ""
    m = ".mat" if kind.startswith("mat") else ".py" if solved else ".txt"
    if kind in ("dir", "matdir"):
        os.mkdir(j("d" + str(int(solved)) + m))
        return j("d" + str(int(solved)) + m), None, None
    if kind in ("noparent", "matnoparent"):
        return j("missing", "x" + m), None, None
    if kind == "belowfile":
        with open(j("plain"), "w") as f:
            f.write("x")
        return j("plain", "x" + m), None, None
    if kind == "nul":
        return j("a\0b" + m), None, None
    if kind in ("eperm", "eio", "emfile", "mateperm"):
        return j("denied%d" % solved + m), None, None
    if kind == "py":
        return j("solved_case.py"), j("solved_case.py"), ""
    if kind == "noext":
        return j("solved_case"), j("solved_case.py"), ""
    if kind == "mat":
        return j("solved_case.mat"), j("solved_case.mat"), ""
    if kind in ("oldpy", "oldmat"):
        x = j("solved_case" + (".py" if kind == "oldpy" else ".mat"))
        with open(x, "w") as f:
            f.write("garbage that is longer than nothing\n" * 400)
        return x, x, ""
    raise ValueError(kind)


class faulty_open(object):
    """open() fails for the named paths"""
    def __init__(self, bad):
        self.bad = bad

    def __enter__(self):
        self.real = builtins.open

        def fake(file, *a, **k):
            e = self.bad.get(file if isinstance(file, str) else None)
            if e is not None:
                raise type(e)(*(e.args + (file,)))
            return self.real(file, *a, **k)
        if self.bad:
            builtins.open = fake
        return self

    def __exit__(self, *a):
        builtins.open = self.real


def tree(tmp):
    out = {}
    for d, dd, ff in os.walk(tmp):
        for x in ff:
            q = os.path.join(d, x)
            with open(q, "rb") as f:
                out[os.path.relpath(q, tmp)] = f.read()
        for x in dd:
            out[os.path.relpath(os.path.join(d, x), tmp) + "/"] = b""
    return out


def nfd():
    return len(os.listdir("/proc/self/fd"))


def loaded(r, key, path, res):
    from pypower.loadcase import loadcase
    if not r.expect(os.path.exists(path), key, "solved case not written to %s" % os.path.basename(path)):
        return
    q = loadcase(path)
    if not r.expect(isinstance(q, dict), key, "the solved case file does not load (code %s)" % (q,)):
        return
    exact = path.endswith(".mat")
    r.expect(q["baseMVA"] == res["baseMVA"], key, "baseMVA %r, results have %r" % (q["baseMVA"], res["baseMVA"]))
    for t in ("bus", "gen", "branch", "gencost"):
        if t not in res:
            continue
        a, b = np.asarray(res[t], float), np.asarray(q.get(t), float)
        if r.expect(a.shape == b.shape, key + ":" + t, "%s has shape %s, results %s" % (t, b.shape, a.shape)):
            d = np.abs(a - b) > (0 if exact else 5.1e-5 + 1e-8 * np.abs(a))
            r.expect(not d.any(), key + ":" + t, lambda: "%s in the file differs from the results at %s" % (t, np.argwhere(d)[:4].tolist()))


def k_files(r, item, tmp):
    an, rep = item["an"], item["rep"]
    p = case(item["net"], an)
    base = {}
    for outcome, oa in (("ok", 1), ("fail", 1), ("ok", 0), ("fail", 0)):
        if not oa and outcome == "fail" and not item["full"]:
            continue
        o = dict(limited(an) if outcome == "fail" else {}, OUT_ALL=oa)
        mark = OUT.tell()
        ref, ok = call(an, api.clone(p), api.opts(**o))
        text = OUT.getvalue()[mark:]
        r.evals += 1
        r.expect((len(text) > 500) == bool(oa), "print:%s:%s:%d" % (an, outcome, oa), "without file name the report is not printed to stdout as selected")
        for sol in item["sol"]:
            sub = tempfile.mkdtemp(dir=tmp)
            os.chdir(sub)
            key = "files:%s:%s:%s:out%d:rep=%s:sol=%s" % (item["net"], an, outcome, oa, rep, sol)
            fn, fpath, pre = place(sub, rep, False)
            sn, spath, _ = place(sub, sol, True)
            bad = {}
            if rep in ERRS:
                bad[fn] = ERRS[rep]
            if sol in ("eperm", "mateperm"):
                bad[sn] = ERRS["eperm"]
            before = tree(sub)
            m1, m2, n = OUT.tell(), ERR.tell(), nfd()
            arg = api.clone(p)
            r.evals += 1
            try:
                with faulty_open(bad):
                    res, ok2 = call(an, arg, api.opts(**o), fn, sn)
            except Exception as e:
                r.bad(key, "the computed results are lost: %r" % e)
                continue
            said, err = OUT.getvalue()[m1:], ERR.getvalue()[m2:]
            r.expect(nfd() == n, key + ":leak", "a file stays open")
            r.expect(bool(ok) == bool(ok2) and same_results(ref, res), key + ":results", "results differ from the run without files")
            if fn:
                r.expect(said == "", key + ":stdout", "printed although a report file was named: %r" % said[:80])
            else:
                r.expect(cut(said) == cut(text), key + ":stdout", "printed report differs")
            after = tree(sub)
            known = set()
            if rep in BADREP:
                r.expect(fn in err, key + ":stderr", "failure to open %r not reported (stderr %r)" % (fn, err))
            elif fn:
                rel = os.path.relpath(fpath, sub)
                known |= {rel, "lnk.txt"}
                got = after.get(rel, b"<missing>").decode("utf-8", "replace")
                r.expect(cut(got) == pre + cut(text), key + ":report", lambda: "report file holds %r..., expected the old contents followed by the report" % got[:200])
            if sol in BADSOL:
                r.expect(len(err) > 10 and ("x" in err or sn in err), key + ":stderr2", "failure to write the solved case not reported")
            elif sn:
                known.add(os.path.relpath(spath, sub))
                loaded(r, key + ":solved", spath, res)
            if rep not in BADREP and sol not in BADSOL:
                r.expect(err == "", key + ":noise", "unexpected message %r" % err)
            for f in set(before) | set(after):
                if f not in known:
                    r.expect(before.get(f) == after.get(f), key + ":other", "%r was created, changed or removed" % f)
            r.validated += 1
            r.tag("%s_%s" % (outcome, "bad" if rep in BADREP or sol in BADSOL else "good"))
            os.chdir(tmp)
            shutil.rmtree(sub, ignore_errors=True)
    r.sample = dict(item)


def same_results(a, b):
    for t in ("bus", "gen", "branch"):
        if np.shape(a[t]) != np.shape(b[t]) or not np.array_equal(a[t], b[t], equal_nan=True):
            return False
    fa, fb = a.get("f"), b.get("f")
    return (fa is None) == (fb is None) and (fa is None or fa == fb or (fa != fa and fb != fb))


def k_pair(r, item, tmp):
    """two runs into the same files: reports accumulate, the solved case is the latest"""
    text = {}
    for an2 in (item["an2"],):
        for oa, ob in ((1, 1), (1, 0), (0, 1)):
            key = "pair:%s:%s+%s:%d%d" % (item["net"], item["an"], an2, oa, ob)
            f, s = os.path.join(tmp, "r.txt"), os.path.join(tmp, "sc.py")
            for x in (f, s):
                if os.path.exists(x):
                    os.remove(x)
            exp = ""
            for an, o in ((item["an"], oa), (an2, ob)):
                p = case(item["net"], an)
                if (an, o) not in text:
                    m = OUT.tell()
                    call(an, api.clone(p), api.opts(OUT_ALL=o))
                    text[an, o] = OUT.getvalue()[m:]
                exp += text[an, o]
                res, ok = call(an, p, api.opts(OUT_ALL=o), f, s)
                r.evals += 2
            r.transitions += 2
            with open(f) as fd:
                r.expect(cut(fd.read()) == cut(exp), key, "the report file is not the concatenation of the two reports")
            loaded(r, key + ":solved", s, res)
            r.validated += 1
    r.tag("pairs")


# ------------------------------------------------------------------------------------------ command line
BOOL_T = ["True", "Yes", "true", "yes", "1", "Y", "y"]
BOOL_F = ["False", "No", "false", "no", "0", "N", "n"]


def documented():
    from pypower import ppoption as m
    return m.PF_OPTIONS, m.OPF_OPTIONS, m.OUTPUT_OPTIONS, m.PDIPM_OPTIONS


ALTV = {"pf_alg": [1, 2, 3, 4], "pf_tol": [1e-3, 1e-10], "pf_max_it": [1, 2, 20], "pf_max_it_fd": [2, 40], "pf_max_it_gs": [5, 2000], "pf_lin_solver_nr": ["pyrlu"], "opf_alg": [0, 560, 565], "opf_violation": [1e-3], "opf_flow_lim": [0, 1, 2], "opf_alg_dc": [200, 250],
        "verbose": [0, 2, 3], "out_all": [-1, 0, 1], "out_all_lim": [-1, 0, 1, 2], "out_v_lim": [0, 2], "out_line_lim": [0, 2], "out_pg_lim": [0, 2], "out_qg_lim": [0, 2], "return_raw_der": [0, 1], "pdipm_feastol": [1e-3], "pdipm_gradtol": [1e-3],
        "pdipm_comptol": [1e-3], "pdipm_costtol": [1e-3], "pdipm_max_it": [3, 200], "scpdipm_red_it": [2]}


def cmdlines(quick):
    """-> list of (entry, argv, options the library call needs | 'bad', runner, case)"""
    out = []
    pf_, opf_, out_, pd_ = documented()
    for entry, groups in (("pf", (pf_, out_)), ("opf", (opf_, pd_, out_))):
        small = ["case4gs"] if entry == "pf" else ["case6ww"]
        for c in small + ([] if quick else ["case9"]):
            out.append((entry, ["-c", c], {}, entry, c))
            out.append((entry, ["--testcase", c], {}, entry, c))
            for g in groups:
                for name, default, _ in g:
                    N = name.upper()
                    if isinstance(default, bool):
                        for t, vs in ((True, BOOL_T), (False, BOOL_F)):
                            for v in (vs if not quick or entry == "pf" and name in ("out_bus", "out_gen") else vs[:2] + vs[4:5]):
                                out.append((entry, ["-c", c, "--%s=%s" % (name, v)], {N: t}, entry, c))
                        out.append((entry, ["-c", c, "--%s=maybe" % name], "bad", entry, c))
                    else:
                        for v in ALTV.get(name, [default]):
                            out.append((entry, ["-c", c, "--%s=%s" % (name, v)], {N: v}, entry, c))
                            if not quick:
                                out.append((entry, ["--%s" % name, str(v), "-c", c], {N: v}, entry, c))
                        if isinstance(default, (int, float)):
                            out.append((entry, ["-c", c, "--%s=abc" % name], "bad", entry, c))
                            out.append((entry, ["-c", c, "--%s=" % name], "bad", entry, c))
                        if isinstance(default, int):
                            out.append((entry, ["-c", c, "--%s=1.5" % name], "bad", entry, c))
        c = small[0]
        out += [(entry, a, "bad", entry, c) for a in (["--bogus"], ["a", "b"], ["-c", "nocase"], ["-c"], ["nofile.py"], ["nofile.mat"], ["nofile"], ["-o"], ["-s"], ["broken.py"])]
        out += [(entry, [f], {}, entry, "FILE") for f in ("mycase.py", "mycase", "mymat.mat", "mymat")]
        out += [(entry, ["--out_all=1", "mycase.py", "--verbose=0"], {"OUT_ALL": 1, "VERBOSE": 0}, entry, "FILE"), (entry, ["mycase.py", "--out_all=0"], {"OUT_ALL": 0}, entry, "FILE")]
        out += [(entry, [], {}, entry, "case9")]
        out += [(entry, a, "help", entry, c) for a in (["-h"], ["--help"], ["--version"])]
    # pairs of options: last one wins, independent ones combine
    out += [("pf", ["-c", "case4gs", "--pf_alg=2", "--pf_alg=3"], {"PF_ALG": 3}, "pf", "case4gs"), ("pf", ["-c", "case4gs", "--pf_alg=2", "--pf_max_it_fd=3"], {"PF_ALG": 2, "PF_MAX_IT_FD": 3}, "pf", "case4gs"),
            ("pf", ["-c", "case9", "-c", "case4gs"], {}, "pf", "case4gs"), ("pf", ["-c", "case9", "--enforce_q_lims=1", "--out_gen=1"], {"ENFORCE_Q_LIMS": True, "OUT_GEN": True}, "pf", "case9"),
            ("opf", ["-c", "case6ww", "-u"], {}, "uopf", "case6ww"), ("opf", ["-c", "case6ww", "--uopf", "--pdipm_max_it=60"], {"PDIPM_MAX_IT": 60}, "uopf", "case6ww"), ("opf", ["mycase.py", "-u"], {}, "uopf", "FILE"),
            ("opf", ["-c", "case30_userfcns", "-r"], {}, "w_res", "case30_userfcns"), ("opf", ["-c", "case30_userfcns", "--w_res", "--out_bus=0"], {"OUT_BUS": False}, "w_res", "case30_userfcns"),
            ("opf", ["-c", "case30_userfcns"], {}, "opf", "case30_userfcns"), ("opf", ["-c", "case6ww", "--opf_alg=7"], "bad", "opf", "case6ww"), ("pf", ["-c", "case4gs", "--pf_alg=7"], "bad", "pf", "case4gs")]
    if not quick:
        for c in ("case6ww", "case9Q", "case14", "case30", "case30Q", "case30pwl", "case24_ieee_rts", "case39"):
            out += [("pf", ["-c", c], {}, "pf", c), ("opf", ["-c", c], {}, "opf", c)]
        for a in BOOL_T[:1]:
            for n1, n2 in itertools.combinations([x[0] for x in out_ if isinstance(x[1], bool)], 2):
                out.append(("pf", ["-c", "case4gs", "--%s=1" % n1, "--%s=0" % n2], {n1.upper(): True, n2.upper(): False}, "pf", "case4gs"))
    return out


def invoke(entry, argv):
    import pypower.main as M
    m1, m2 = OUT.tell(), ERR.tell()
    try:
        getattr(M, entry)(list(argv))
        code = None
    except SystemExit as e:
        code = e.code
    except Exception as e:
        code = e
    return code, OUT.getvalue()[m1:], ERR.getvalue()[m2:]


def k_cli(r, item, tmp):
    from pypower import api as A
    from pypower.savecase import savecase
    p = c30.NETS["b3"]()
    savecase(os.path.join(tmp, "mycase.py"), p)
    savecase(os.path.join(tmp, "mymat.mat"), p)
    with open("broken.py", "w") as f:
        f.write("def broken(:\n")
    for entry, argv, want, runner, c in cmdlines(item["quick"])[item["lo"]:item["lo"] + item["n"]]:
        key = "cli:%s:%s" % (entry, " ".join(argv))
        r.evals += 1
        if want == "help":
            code, o, e = invoke(entry, argv)
            r.expect(code in (0, None) and len(o) > 20 and e == "", key, "exit %r, stdout %r, stderr %r" % (code, o[:80], e[:80]))
            r.tag("help"); continue
        if want == "bad":
            before = tree(tmp)
            code, o, e = invoke(entry, argv)
            r.expect(code not in (0, None), key, "bad argument accepted (exit status %r)" % (code,))
            r.expect(isinstance(code, Exception) and str(code).strip() or e.strip() or o.strip(), key, "rejected without a message")
            r.expect(not isinstance(code, (UnboundLocalError, NameError, AttributeError)), key, "internal error %r" % (code,))
            r.expect(tree(tmp) == before, key, "files changed by a rejected command line")
            r.tag("rejected"); continue
        src = (lambda: api.clone(p)) if c == "FILE" else {"case30_userfcns": lambda: A.t_case30_userfcns()}.get(c, lambda: getattr(A, c)())
        opt = A.ppoption(**want)
        f = {"pf": A.runpf, "opf": A.runopf, "uopf": A.runuopf, "w_res": A.runopf_w_res}[runner]
        m = OUT.tell()
        x = f(src(), opt)
        text = OUT.getvalue()[m:]
        ref, ok = x if isinstance(x, tuple) else (x, x["success"])
        quietopt = A.ppoption(opt, VERBOSE=opt["VERBOSE"])
        # plain: everything on stdout
        code, o, e = invoke(entry, argv)
        r.expect(code == (0 if ok else 2) and type(code) is int, key + ":exit", "exit status %r, the analysis %s" % (code, "succeeds" if ok else "fails"))
        r.expect(cut(o) == cut(text), key + ":stdout", lambda: "output differs from the library call: %r... / %r..." % first_diff(cut(o), cut(text)))
        # into files
        for x in ("rep.txt", "sv.py", "sv.mat"):
            if os.path.exists(x):
                os.remove(x)
        for form in (["-o", "rep.txt", "-s", "sv.py"], ["--outfile=rep.txt", "--solvedcase=sv.mat"]):
            code, o, e = invoke(entry, form + list(argv))
            r.evals += 1
            r.expect(code == (0 if ok else 2), key + ":exit", "exit status %r with output files" % (code,))
            r.expect("Objective" not in o and "Bus Data" not in o, key + ":file", "report printed although a file was named")
            loaded(r, key + ":solved", os.path.join(tmp, "sv.py" if "-s" in form else "sv.mat"), ref)
        if not r.expect(os.path.exists("rep.txt"), key + ":file", "no report file written"):
            continue
        with open("rep.txt") as fd:
            t = fd.read()
        rep = c30.show(ref, opt) if runner != "w_res" else None
        if rep is not None:
            r.expect(cut(t) == 2 * cut(rep), key + ":file", "the report file does not hold the two reports")
        else:
            r.expect(t.count("Reserves") >= 2, key + ":file", "no reserve report")
        r.validated += 1
        r.tag("ran_ok" if ok else "ran_failed")
    r.sample = {"commands": [x[1] for x in cmdlines(True)[:3]]}


def first_diff(a, b):
    for i in range(min(len(a), len(b))):
        if a[i] != b[i]:
            return a[i:i + 60], b[i:i + 60]
    return a[len(b):][:60], b[len(a):][:60]


def k_process(r, item, tmp):
    """the entry points as processes"""
    env = dict(os.environ, PYTHONPATH=REPO)
    for entry, argv, code in (("pf", ["-c", "case4gs", "-o", "o1"], 0), ("pf", ["-c", "case4gs", "--pf_max_it=1", "-o", "o2"], 2), ("opf", ["-c", "case6ww", "-o", "o3", "-s", "o3.mat"], 0), ("opf", ["-c", "case6ww", "--pdipm_max_it=1", "-o", "o4"], 2),
                              ("pf", ["--bogus"], 2), ("pf", ["-o", "nodir/x", "-c", "case4gs"], 0)):
        q = subprocess.run([sys.executable, "-W", "ignore", "-c", "import sys; from pypower.main import %s; sys.exit(%s())" % (entry, entry)] + argv, env=env, cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        r.evals += 1
        key = "process:%s:%s" % (entry, " ".join(argv))
        r.expect(q.returncode == code, key, "exit status %d: %s" % (q.returncode, q.stderr[-300:]))
        if "-o" in argv and "nodir" not in argv[1]:
            f = os.path.join(tmp, argv[argv.index("-o") + 1])
            r.expect(os.path.exists(f) and os.path.getsize(f) > 1000, key, "no report written")
    r.validated += 1
    r.tag("process")
