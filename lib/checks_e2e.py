"""The whole system: plugin, prompt, socket, approval script, and the plugin again for the script's own sudo."""
import json, os, queue, re, signal, subprocess, sys, threading, time
import build, model
from checks_misc import approval, rcase, STANDIN
from common import *
from framework import Violation, Inconclusive, expect
from gen import Inv
from registry import check
import gen

PAIR = """import os, socket, sys
p = [x for x in sys.argv[1:] if x.lower().startswith('unix')][0].split(':', 1)[1]
s = socket.socket(socket.AF_UNIX)
s.settimeout(100)
s.connect(p.replace('/var/run/sudo_pair', os.environ['SP_REAL'], 1))
f = open(os.environ['SP_GOT'], 'wb', 0)
ans, leave, n, sent = bytes.fromhex(os.environ['SP_ANSWER']), int(os.environ['SP_LEAVE']), 0, False
while True:
    b = s.recv(65536)
    if not b: break
    f.write(b); n += len(b)
    if not sent:
        sent = True
        if not ans: break
        s.sendall(ans)
    if 0 <= leave <= n: break
"""


class Host:
    def __init__(self, d, name, lib, env):
        spec = {n: [x.hex() for x in model.kvlist(getattr(env, n))] for n in env.VECS}
        spec["lib"] = lib
        path = "%s/%s.json" % (d, name)
        with open(path, "w") as f:
            json.dump(spec, f)
        self.p = subprocess.Popen([sys.executable, "-B", "-S", "-E", os.path.join(build.VERIF, "lib/e2ehost.py"), path], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=d)
        self.q, self.printed = queue.Queue(), b""
        threading.Thread(target=self.reader, daemon=True).start()

    def reader(self):
        for line in self.p.stdout:
            self.q.put(json.loads(line))
        self.q.put(None)

    def send(self, *w):
        try:
            self.p.stdin.write((" ".join(map(str, w)) + "\n").encode())
            self.p.stdin.flush()
        except OSError:
            pass

    def poll(self, t=0):
        """what a callback returned, if it has"""
        end = time.time() + t
        while True:
            try:
                e = self.q.get(timeout=max(0, min(.05, end - time.time()))) if t else self.q.get_nowait()
            except queue.Empty:
                if time.time() >= end:
                    return None
                continue
            if e is None:
                raise Violation("the plugin ends sudo (%r)" % self.p.wait(), "sudo ends")
            if "print" in e:
                self.printed += bytes.fromhex(e["print"])
            else:
                return e["ret"]

    def call(self, *w):
        before = len(self.printed)
        self.send(*w)
        r = self.poll(90)
        if r is None:
            raise Inconclusive("%s takes too long" % w[0])
        return r, self.printed[before:]

    def end(self):
        self.p.kill()
        self.p.wait()
        self.p.stdin.close()


@check("C34", "A session waits; the command in the prompt it shows is run, as it stands, by its own user (directly, through sudo, or as the target) and then by somebody else; each time the real script asks sudo for another identity, the real plugin is opened for that sudo, too, and the script is run again as the target. Non-trivial: distinct (session, identities, prompt, answer, ending).",
       "runtime monitor: the real plugin in stand-ins for sudo and the real approval script, whose socat is a real connection; oracle: models of the script and of the session, and the pair's stream",
       "Real time: a step that takes more than a minute and a half is inconclusive. sudo, socat, stty, clear and getent are stand-ins.")
def c34(ctx):
    rng = ctx.rng
    A = approval(ctx, dict(STANDIN, socat="unset LD_PRELOAD\nexec '%s' -S -E -B \"$SP_PAIR\" \"$@\"\n" % sys.executable))
    with open(A.base + "/pair.py", "w") as f:
        f.write(PAIR)
    os.chmod(A.base + "/pair.py", 0o644)
    so = build.plugin()
    sample = {}
    for w in ("user", "pair"):
        try:
            sample[w] = open(os.path.join(build.REPO, "sample/etc/sudo_pair.prompt." + w), "rb").read()
        except OSError:
            sample[w] = b"%B %u %p\n"
    cases = [dict(seed=rng.randrange(1 << 48), tries=rng.choice([0, 0, 1, 2]), answer=rng.choice(["y", "y", "Y", "y", "n", "N", "\n", ""]), leave=rng.random() < .35) for _ in range(ctx.n(700, 12000))]
    uids, gids = sorted(A.USERS), sorted(A.GROUPS)
    lock = threading.Lock()
    bad, limit = [], ctx.n(500, 7200)

    def invocation(g, d, uid, gid, groups, target, group):
        i = Inv(d)
        i.user.update(user=A.USERS[uid], uid=uid, gid=gid, egid=gid, groups=",".join(map(str, [gid] + groups)), pid=g.choice([2, 300, 4711, 65536, 4194304, 2147483647]))
        if group is None:
            i.cmd.update(runas_uid=target, runas_gid=g.choice([0, target if target in A.GROUPS else 7]), runas_groups="0,%d" % g.choice([7, 500]))
            if g.random() < .7:
                i.settings["runas_user"] = A.USERS[target]
            i.opt["gids_enforced"] = g.choice(["0", "0,31337"])
        else:
            i.settings["runas_group"] = A.GROUPS[group]
            i.cmd.update(runas_uid=uid, runas_gid=group, runas_groups=",".join(map(str, [group] + groups)))
            i.opt["gids_enforced"] = "31337,%d" % group
        i.opt.update(socket_dir=d + "/sock", binary_path=A.script)
        return i

    def one(case):
        if sum(bad) > 6 or time.time() - ctx.t0 > limit:      # enough seen, or too slow to go on
            return
        g = rcase(case)
        d = ctx.scratch.new()
        os.rename(d + "/s", d + "/sock")
        os.chmod(d + "/sock", 0o755)
        os.chmod(d, 0o755)
        runs, hosts = [], []
        try:
            uid, gid = g.choice([1882, 1001, 1, 7, 65534]), g.choice([1882, 1, 65534])
            group = g.choice([x for x in gids if x != gid]) if g.random() < .4 else None
            target = g.choice([x for x in uids if x != uid])
            i = invocation(g, d, uid, gid, [], target, group)
            kinds = {}
            for w in ("user", "pair"):
                kinds[w] = g.choice(["none", "sample", "own"])
                if kinds[w] != "none":
                    with open("%s/%s.tpl" % (d, w), "wb") as f:
                        f.write(sample[w] if kinds[w] == "sample" else gen.rbytes(g, g.randrange(40), b"ab \n,") + b" %B %u %p\n" + gen.rbytes(g, g.randrange(9), b"ab \n") if w == "user" else b"approve %U: %C?" + gen.rbytes(g, g.choice([0, 10, 3000]), b"x \n"))
            v = model.View(i.env())
            if v.decision != "pair":
                return
            name = v.sock_name.decode()
            path = d + "/sock/" + name
            h = Host(d, "session", so, i.env())
            hosts.append(h)
            h.send("open")
            end = time.time() + 60
            st = None
            while True:
                r = h.poll()
                if r is not None and r == 1:
                    raise Violation("open returns %r and nobody has been asked" % r, "granted unasked")
                expect(r is None, lambda: "open returns %r before anybody could answer: %r" % (r, h.printed), "refused unasked")
                try:
                    x = os.stat(path)
                    if x.st_mode & 0o7777 == v.sock_owner[2] or time.time() > end - 50:
                        st = dict(name=name, uid=x.st_uid, gid=x.st_gid, mode=x.st_mode & 0o7777)
                        break
                except OSError:
                    other = os.listdir(d + "/sock")
                    if other and time.time() > end - 50:         # the names are between the plugin and the script
                        name, path = other[0], d + "/sock/" + other[0]
                if time.time() > end:
                    raise Inconclusive("no socket")
                time.sleep(.004)
            end = time.time() + 5
            while True:
                expect(h.poll(.01) is None, lambda: "open returns before anybody could answer: %r" % h.printed, "refused unasked")
                m = re.search(re.escape(A.script.encode()) + rb"[ ]+(\d+)[ ]+(\d+)", h.printed)
                if m or time.time() > end:
                    break
            if kinds["user"] == "sample" and b"%B %u %p" not in sample["user"]:
                m = m or re.match(rb"(\d+) (\d+)$", b"%d %d" % (uid, i.user["pid"]))
            expect(m, lambda: "the prompt does not say how to approve: %r" % h.printed[:300], "no instructions")
            args = [m.group(1).decode(), m.group(2).decode()]
            # its own user, in every way that is open to them
            for _ in range(case["tries"]):
                run = g.choice([dict(uid=uid, gid=gid, groups=[], sudo_uid=None), dict(uid=0, gid=0, groups=[], sudo_uid=str(uid)), dict(uid=uid, gid=gid, groups=[], sudo_uid=str(uid)),
                                dict(uid=st["uid"], gid=st["gid"], groups=[], sudo_uid=str(uid))])
                run["args"] = args
                out = A.execute(d, run["uid"], run["gid"], run["groups"], args, run["sudo_uid"], g, {"SP_GOT": "/dev/null", "SP_ANSWER": "79", "SP_LEAVE": "1", "SP_PAIR": A.base + "/pair.py"}, 100)
                runs.append((run, [out[0], out[1], out[2], out[3].stderr[-300:]]))
                expect(out[0] != 0 and not out[1] and not out[2], lambda: "the session's own user, following the instructions, gets %r" % (out[1] + out[2]), "approves themselves")
                expect(h.poll() is None and os.path.exists(path), "the session goes on although only its own user has tried to approve it", "self-approval")
                ctx.count("self-approvals refused")
            # somebody else
            human = g.choice([x for x in uids if x != uid])
            run = dict(uid=human, gid=g.choice(gids), groups=g.choice([[], [7], [500], [st["gid"]]]), args=args, sudo_uid=None)
            if g.random() < .15 and human:       # who is root already, by way of sudo
                run.update(uid=0, gid=0, groups=[], sudo_uid=str(human))
            got = d + "/got"
            open(got, "wb").close()
            os.chmod(got, 0o666)
            prompt = pair_prompt(v)
            outs = [gen.rbytes(g, g.choice([1, 1, 30, 3000])) for _ in range(g.randrange(1, 5))]
            leave = len(prompt) + 2 + len(outs[0]) if case["leave"] else -1
            extra = {"SP_GOT": got, "SP_ANSWER": case["answer"].encode().hex(), "SP_LEAVE": str(leave), "SP_PAIR": A.base + "/pair.py"}
            for step in range(3):
                w = run["uid"] == 0 or (st["mode"] & 0o200 if run["uid"] == st["uid"] else st["mode"] & 0o020 if st["gid"] in [run["gid"]] + run["groups"] else 0)
                res = []

                def go(run=run, res=res):
                    try:
                        res.append(A.execute(d, run["uid"], run["gid"], run["groups"], args, run["sudo_uid"], g, extra, 200))
                    except Inconclusive as e:
                        res.append(e)
                th = threading.Thread(target=go)
                th.start()
                if w:
                    break
                th.join(210)
                if not res or isinstance(res[0], Inconclusive):
                    raise Inconclusive("script")
                runs.append((run, [res[0][0], res[0][1], res[0][2], res[0][3].stderr[-300:]]))
                nxt = A.verdict(st, run, res[0])
                expect(nxt, "the script gives up", "gives up")
                expect(step < 1, "the script asks for sudo twice", "sudo again")
                # the sudo it asks for loads the plugin, too, and must not want a pair of its own
                n = invocation(g, d, run["uid"], run["gid"], run["groups"], nxt[0] if nxt[0] != run["uid"] else target, None if nxt[0] != run["uid"] else nxt[1])
                n.user["pid"] = i.user["pid"] + 1 if i.user["pid"] < 2147483647 else 77
                n.cmd["command"] = A.script
                n.argv = [A.script.encode()] + [a.encode() for a in args]
                h2 = Host(d, "nested", so, n.env())
                hosts.append(h2)
                h2.send("open")
                end = time.time() + 60
                r = None
                while r is None:
                    r = h2.poll(.02)
                    expect(set(os.listdir(d + "/sock")) == {name}, "running the approval command needs a pair of its own", "approval needs approval")
                    if r is None and time.time() > end:
                        raise Inconclusive("nested sudo")
                expect(r == 1 and not h2.printed, lambda: "sudo of the approval command: open returns %r and prints %r" % (r, h2.printed[:200]), "approval command refused")
                expect(h2.call("log", "stdin", "79")[0] == 1, "the approval command may not be answered through redirected input", "approval stdin")
                h2.call("close")
                ctx.count("plugin opened for the approval command")
                run = dict(uid=nxt[0], gid=nxt[1], groups=nxt[2], args=args, sudo_uid=run["sudo_uid"] or str(human))
            end = time.time() + 100
            r = None
            while r is None and th.is_alive() and time.time() < end:
                r = h.poll(.02)
            if r is None:
                r = h.poll(2)
            if r is None and not th.is_alive() and res and not isinstance(res[0], Inconclusive):
                runs.append((run, [res[0][0], res[0][1], res[0][2], res[0][3].stderr[-300:]]))
                A.verdict(st, run, res[0])
                r = h.poll(15)
                expect(r is not None, lambda: "somebody who may has followed the instructions (exit %r, %r), and the session still waits" % (res[0][0], res[0][3].stderr[-200:]), "instructions do not work")
            if r is None:
                raise Inconclusive("slow")
            yes = case["answer"] in ("y", "Y")
            expect((r == 1) == yes, lambda: "the pair answered %r and open returns %r (%r)" % (case["answer"], r, h.printed[-200:]), "answer")
            want = prompt + (case["answer"].encode() + b"\n" if case["answer"] else b"")
            left = False
            if yes:
                for k, o in enumerate(outs):
                    r, said = h.call("log", g.choice(["ttyout", "stdout", "stderr"]), o.hex())
                    expect(r == (0 if left else 1), lambda: "output returns %r though the pair is %s" % (r, "gone" if left else "there"), "output")
                    if not left:
                        want += o
                    if case["leave"] and not left:
                        th.join(150)
                        if th.is_alive():
                            raise Inconclusive("pair")
                        left = True
                h.call("close")
            th.join(150)
            if th.is_alive() or not res or isinstance(res[0], Inconclusive):
                raise Inconclusive("pair")
            runs.append((run, [res[0][0], res[0][1], res[0][2], res[0][3].stderr[-300:]]))
            A.verdict(st, run, res[0])
            seen = open(got, "rb").read()
            expect(seen == want if case["answer"] else want.startswith(seen) and seen, lambda: "the pair saw %r, the session showed %r" % (seen[-300:], want[-300:]), "pair's view")
            expect(not os.listdir(d + "/sock"), lambda: "left behind: %r" % os.listdir(d + "/sock"), "left behind")
            ctx.count("approved" if yes else "declined")
            ctx.count("pair left" if left else "session ended")
            ctx.saw([uid, gid, group, target, human, run["uid"], kinds, case["answer"], case["leave"], case["tries"]],
                    {"instructions": args, "socket": st, "runs": [[x[0]["uid"], x[0]["sudo_uid"], x[1][1], x[1][2]] for x in runs], "answer": case["answer"]})
        except Violation as e:
            bad.append(1)
            ctx.violate(e.what, {"case": case, "runs": runs, "printed": [x.printed[-400:] for x in hosts]}, e.sig)
        except Inconclusive as e:
            bad.append(.5)
            ctx.incon(str(e))
        finally:
            for x in hosts:
                x.end()
            ctx.scratch.done(d)
    it = iter(cases)

    def work():
        while True:
            with lock:
                c = next(it, None)
            if c is None:
                return
            try:
                one(c)
            except BaseException as e:
                ctx.incon("harness: %r" % e)
                return
    ts = [threading.Thread(target=work) for _ in range(ctx.jobs)]
    for t in ts: t.start()
    for t in ts: t.join()
