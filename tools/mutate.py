#!/usr/bin/env python3
"""Mutation run: small source changes to /repo's crates, one at a time, against the stable tests and the checks.

usage: tools/mutate.py list FILE...                       what would be tried
       tools/mutate.py run WORKDIR OUT.jsonl K/N FILE...   every Nth mutant from the Kth on
WORKDIR gets a copy of /repo and of /verif (so that nothing is shared with other runs).
What survives is either no change of behaviour or a hole in the checks: reading the list is up to you.
"""
import json, os, re, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

WORDS = [("true", "false"), ("runas_euid", "runas_uid"), ("runas_uid", "runas_euid"), ("runas_egid", "runas_gid"), ("runas_gid", "runas_egid"),
         ("is_some", "is_none"), ("is_none", "is_some"), ("is_ok", "is_err"), ("is_err", "is_ok"), ("any", "all"), ("all", "any"), ("stderr", "stdout"), ("stdout", "stderr"),
         ("Deny", "Ok"), ("Ok", "Deny"), ("Disable", "Ok"), ("LogStatus::Deny", "LogStatus::Disable"), ("OpenStatus::Deny", "OpenStatus::Disable"), ("OpenStatus::Usage", "OpenStatus::Deny"), ("write_all", "write"),
         ("splitn", "split"), ("intersection", "union"), ("is_disjoint", "is_subset"), ("user_info", "command_info"), ("command_info", "user_info"),
         ("S_IWUSR", "S_IRUSR"), ("S_IWGRP", "S_IWUSR"), ("S_IWGRP", "S_IRGRP"), ("S_IWOTH", "S_IROTH"), ("S_IWUSR", "S_IRWXU"), ("S_IXUSR", "S_IRUSR"), ("from_utf8_lossy", "from_utf8_unchecked"), ("euid", "uid"), ("uid", "euid"), ("gid", "egid"), ("egid", "gid"),
         ("Both", "Read"), ("Both", "Write"), ("user_prompt_path", "pair_prompt_path"), ("pair_prompt_path", "user_prompt_path"), ("gids_enforced", "gids_exempted"), ("gids_exempted", "gids_enforced"),
         ("lines", "cols"), ("cols", "lines"), ("drain", "truncate"), ("SIGINT", "SIGQUIT"), ("EINTR", "EAGAIN"), ("lstat", "stat"), ("symlink_metadata", "metadata"), ("first", "last"), ("unwrap_or_default", "unwrap"), ("trim", "to_string"), ("cwd", "host"), ("pid", "ppid"), ("sid", "pid"), ("Info", "Error"), ("ERROR_MSG", "INFO_MSG"), ("INFO_MSG", "ERROR_MSG"), ("saturating_add", "wrapping_add"), ("ttyin", "ttyout"), ("is_empty", "is_ascii")]
OPS = [(" == ", " != "), (" != ", " == "), (" < ", " <= "), (" < ", " > "), (" > ", " >= "), (" > ", " < "), (" <= ", " < "), (" >= ", " > "), (" && ", " || "), (" || ", " && "), (" | ", " & "), (" & ", " | "), (" + ", " - "), (" - ", " + "), (" << ", " >> "), (" >> ", " << "), ("if !", "if "), ("= !", "= "), ("(!", "("), ("?;", ".ok();"), (".rev()", ""), (".skip(1)", ""), ("&mut ", "& ")]


def code_lines(text):
    """(number, line) of the lines that are neither comment, attribute nor test"""
    out, depth, test = [], 0, False
    for n, l in enumerate(text.split("\n")):
        s = l.strip()
        if s.startswith("#[cfg(test)]"):
            break
        if test or s.startswith(("slog::trace!", "slog::debug!")):     # what only a debugging build prints
            test = not s.endswith(");")
            continue
        if not s or s.startswith("//") or s.startswith("#[") or s.startswith("#![") or s.startswith("use ") or s.startswith("slog::trace") or s.startswith("slog::debug"):
            continue
        out.append((n, l))
    return out


def mutants(path, text):
    seen = set()
    lines = text.split("\n")

    def put(n, new, what):
        if new != lines[n] and (n, new) not in seen:
            seen.add((n, new))
            return [(n, new, what)]
        return []
    res = []
    for n, l in code_lines(text):
        code = l.split(" //")[0]
        for a, b in OPS:
            i = -1
            while True:
                i = code.find(a, i + 1)
                if i < 0:
                    break
                res += put(n, l[:i] + b + l[i + len(a):], "%r -> %r" % (a, b))
        for a, b in WORDS:
            for m in re.finditer(r"(?<![A-Za-z0-9_])" + re.escape(a) + r"(?![A-Za-z0-9_])", code):
                res += put(n, l[:m.start()] + b + l[m.end():], "%s -> %s" % (a, b))
        for m in re.finditer(r"(?<![A-Za-z0-9_.])(0o[0-7]+|0x[0-9a-fA-F]+|[0-9]+)(?![A-Za-z0-9_.])", code):
            v = m.group(1)
            res += put(n, l[:m.start()] + "(" + v + " + 1)" + l[m.end():], "%s + 1" % v)
            if v not in ("0", "0x0"):
                res += put(n, l[:m.start()] + "(" + v + " - 1)" + l[m.end():], "%s - 1" % v)
        for m in re.finditer(r'"((?:[^"\\]|\\.)+)"', code):
            res += put(n, l[:m.start(1)] + "X" + m.group(1)[1:] + l[m.end(1):] if m.group(1)[0] not in "\\{" else l[:m.end(1)] + "X" + l[m.end(1):], "string")
        for m in re.finditer(r"b'([^'\\])'", code):
            res += put(n, l[:m.start(1)] + chr(ord(m.group(1)) ^ 1) + l[m.end(1):], "byte")
        s = l.strip()
        if s.endswith(";") and not re.match(r"(let|return|pub|const|static|type|use|mod|extern|fn|break|continue|\}|\)|[\]\.])", s) and s.count("(") == s.count(")") and s.count("{") == s.count("}"):
            res += put(n, re.match(r"\s*", l).group() + ";", "statement removed")
        m = re.match(r"(\s*)let (_|\w+) = (.*;)$", l)
        if m and m.group(2) == "_":
            res += put(n, m.group(1) + ";", "statement removed")
        m = re.match(r"(\s*)return (.*;)$", l)
        if m:
            res += put(n, m.group(1) + ";", "return removed")
        if re.match(r"\s*\.\w+\(.*\)\??;?$", l) and s.count("(") == s.count(")"):
            res += put(n, re.match(r"\s*", l).group() + (";" if s.endswith(";") else ""), "call in chain removed")
        m = re.match(r"(\s*)(if|while) (?!let)(.+) \{$", l)
        if m:
            res += put(n, "%s%s (%s) && false {" % m.groups(), "never")
            if m.group(2) == "if":
                res += put(n, "%sif (%s) || true {" % (m.group(1), m.group(3)), "always")
    return [dict(file=path, line=n + 1, old=lines[n].strip(), new=new.strip(), raw=new, what=what) for n, new, what in res]


def all_mutants(repo, files):
    out = []
    for f in files:
        out += mutants(f, open(os.path.join(repo, f)).read())
    return out


def sh(cmd, cwd, timeout, env=None):
    p = subprocess.Popen(["bash", "-c", cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=dict(os.environ, **(env or {})), start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 124, "timeout"


PLUG = "C02 C04 C13 C28 C11 C14 C27 C05 C06 C08 C12 C07 C10 C09 C01 C03 C26 C29 C30 C24 C25 C31 C17 C16 C23 C18 C19 C20 C21 C15 C32 C33 C34".split()
LIB = "C17 C31 C16 C23 C18 C19 C20 C21 C15 C24 C29 C32 C13 C28 C14 C02 C27 C11 C04 C05 C06 C08 C12 C07 C10 C09 C01 C03 C30 C26 C33 C25 C34".split()


def main():
    if sys.argv[1] == "list":
        for m in all_mutants("/repo", sys.argv[2:]):
            print("%(file)s:%(line)d %(what)s\n   - %(old)s\n   + %(new)s" % m)
        return
    work, out, kn, files = sys.argv[2], sys.argv[3], sys.argv[4], sys.argv[5:]
    k, n = map(int, kn.split("/"))
    repo, ver = work + "/repo", work + "/verif"
    os.makedirs(work, exist_ok=True)
    if not os.path.exists(repo):
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
    if not os.path.exists(ver):
        subprocess.run(["cp", "-a", HERE, ver], check=True)
    env = ". /opt/vp/env.sh; cd %s; export CARGO_TARGET_DIR=%s/target; " % (repo, work)
    sh("git checkout -q -- .", repo, 60)
    passed = lambda o: set(re.findall(r"^test (.*?) \.\.\. ok$", o, re.M))
    TEST = "cargo test -p sudo_pair -p sudo_plugin --offline --no-fail-fast --lib"
    base = set()
    for _ in range(2):
        for t in ("sudo_pair", "sudo_plugin"):
            base |= passed(sh(env + "cargo test -p %s --offline --no-fail-fast" % t, repo, 900)[1])
    done = set()
    if os.path.exists(out):
        done = {(d["file"], d["line"], d["raw"]) for d in map(json.loads, open(out))}
    for i, m in enumerate(all_mutants(repo, files)):
        if i % n != k or (m["file"], m["line"], m["raw"]) in done:
            continue
        p = os.path.join(repo, m["file"])
        text = open(p).read()
        ls = text.split("\n")
        ls[m["line"] - 1] = m["raw"]
        open(p, "w").write("\n".join(ls))
        t0 = time.time()
        try:
            rc, o = sh(env + "cargo build -p sudo_pair -p sudo_plugin --offline", repo, 600)
            if rc:
                m["res"] = "no build"
                continue
            got = set()
            for t in ("sudo_pair", "sudo_plugin"):
                got |= passed(sh(env + "cargo test -p %s --offline --no-fail-fast" % t, repo, 600)[1])
            if not base <= got:
                m["res"] = "tests"
                continue
            m["res"], m["odd"] = "SURVIVED", []
            for c in (PLUG if m["file"].startswith("sudo_pair/") else LIB):
                rc, o = sh("./check %s" % c, ver, 900, {"SUDO_PAIR_REPO": repo, "VERIF_JOBS": "4"})
                if rc == 1 and "VIOLATION property=" in o:
                    m["res"], m["by"] = "caught", c
                    break
                if rc:
                    m["odd"].append((c, rc, o[-300:]))
        finally:
            open(p, "w").write(text)
            m["s"] = round(time.time() - t0, 1)
            open(out, "a").write(json.dumps(m) + "\n")
            print(m["res"], m.get("by", ""), m["s"], "%s:%d" % (m["file"], m["line"]), m["what"], "|", m["new"][:100], flush=True)


main()
