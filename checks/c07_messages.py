"""C07: messages are handled exactly once, in order."""
from soil import agents, environment, events
from soil import time as stime
from mc.core import Violation, check, same, Prune
from mc.world import INF, CUR, scripted, close


class Handler(agents.EventedAgent):
    flag = False

    def step(self):
        return INF

    def on_receive(self, msg, sender=None):
        return CUR.st.receive(self, msg, sender)


class One(Handler):
    pass


class Two(Handler):
    flag = True


class Full(agents.Agent):
    flag = False

    @agents.state(default=True)
    def only(self):
        return INF

    def on_receive(self, msg, sender=None):
        return CUR.st.receive(self, msg, sender)


class Deaf(agents.BaseAgent):
    flag = True

    def step(self):
        return INF


class Ticker(agents.BaseAgent):
    flag = False

    def step(self):
        return 1


class St:
    def __init__(self, ctx, task):
        self.ctx = ctx
        self.task = task
        self.inbox = {}
        self.depth = {}
        self.batch = {}
        self.handled = []
        self.reactions = task.get("reactions", 0)
        self.count = 0
        self.dead = set()

    def payload(self):
        self.count += 1
        if self.task.get("same"):  # Different messages with the same content
            return {"n": 0}
        # Payloads that are false are messages, too
        return ({"n": self.count} if self.count % 4 else [])

    # --- operations
    def tell(self, i, sender=None):
        p = self.payload()
        a = self.ags[i]
        if sender is None:
            a.tell(p)
        else:
            a.tell(p, sender=self.ags[sender])
        self.inbox[i].append((p, None, sender))
        self.ctx.note(f"tell {i}, sender {sender}: message {self.count}")

    def bcast(self, kind, sender=None):
        p = self.payload()
        now = self.env.now
        kw = {}
        exp = None
        if kind.startswith("ttl"):
            kw["ttl"] = int(kind[3:])
            exp = now + kw["ttl"]
        elif kind.startswith("exp"):
            kw["expiration"] = exp = now + int(kind[3:])
        targets = list(self.inbox)
        if kind == "class":
            kw["agent_class"] = Two
            targets = [i for i in targets if isinstance(self.ags[i], Two)]
        elif kind == "flag":
            kw["flag"] = True
            targets = [i for i in targets if self.ags[i].flag]
        elif kind == "ids":
            kw["unique_id"] = [0, 2]
            targets = [i for i in targets if i in (0, 2)]
        if sender is not None:
            kw["sender"] = self.ags[sender]
        self.env.broadcast(p, **kw)
        for i in targets:
            if i != sender and i not in self.dead:
                self.inbox[i].append((p, exp, sender))
        self.ctx.note(f"broadcast {kind}, sender {sender}: message {self.count}")

    def process(self, i):
        self.ctx.note(f"agent {i} processes its messages")
        outer = self.depth.get(i, 0) == 0
        self.depth[i] = self.depth.get(i, 0) + 1
        now = self.env.now
        old = self.batch.get(i)
        box = self.inbox[i]
        valid = [x for x in box if x[1] is None or not x[1] < now]
        self.batch[i] = len(box)
        start = len(self.handled)
        fresh = list(box)
        res = self.ags[i].process_messages()
        self.depth[i] -= 1
        nested = self.nested.pop(i, False)
        if not outer:
            self.nested[i] = True
            return
        # Whatever was there has been handled
        rest = self.inbox[i]
        live = [x for x in rest if x[1] is None or not x[1] < now]
        kept = [x for x in live if any(x is y for y in fresh)]
        check(not kept, "messages {} of agent {} were not handled", kept, i)
        self.inbox[i] = [x for x in rest if not any(x is y for y in fresh)]
        mine = [m for (j, m) in self.handled[start:] if j == i]
        if not nested:
            check(all(any(m is y[0] for y in fresh) for m in mine),
                  "messages sent in the meantime were handled: {}", mine)
            same([m.payload for m in res], [x[0] for x in valid], f"result of the processing of agent {i}")
            for (m, x) in zip(res, valid):
                check(m.sender is (None if x[2] is None else self.ags[x[2]]), "wrong sender in {}", m)
    nested = None

    def receive(self, agent, msg, sender):
        i = agent.unique_id
        self.ctx.step()
        now = self.env.now
        box = self.inbox[i]
        while box and box[0][1] is not None and box[0][1] < now:
            box.pop(0)
        check(box, "agent {} received {}, and there are no more messages for it", i, msg)
        (p, exp, s) = box.pop(0)
        check(p is msg, "agent {} received {}, instead of {}", i, msg, p)
        check(sender is (None if s is None else self.ags[s]), "agent {} received {} from {}, instead of {}", i, msg, sender, s)
        self.handled.append((i, msg))
        if self.reactions > 0:
            r = self.ctx.pick(self.task["react"])
            if r == "none":
                return
            self.reactions -= 1
            self.ctx.note(f"   while handling it, agent {i}: {r}")
            if r == "self":
                self.tell(i, i)
            elif r == "other":
                self.tell(1 - i if i < 2 else 0, i)
            elif r == "bcast":
                self.bcast("all", i)
            elif r == "bcast-all":
                self.bcast("all")
            elif r == "process":
                self.process(i)
            elif r == "process-other":
                j = 1 - i if i < 2 else 0
                if self.depth.get(j):
                    raise Prune()
                self.process(j)


def ops(ctx):
    task = ctx.task
    st = CUR.st = St(ctx, task)
    st.nested = {}
    env = st.env = scripted(environment.Environment, ctx, uniform=(0.0,))(schedule_class=stime.OrderedTimedActivation)
    classes = {"One": One, "Two": Two, "Full": Full}
    st.ags = {}
    for c in task["classes"]:
        a = env.add_agent(classes[c])
        st.ags[a.unique_id] = a
        st.inbox[a.unique_id] = []
    n = len(st.ags)
    deaf = env.add_agent(Deaf)
    st.ags[deaf.unique_id] = deaf
    # An agent of another environment, with the identifier of one of this
    st.ags["other"] = environment.Environment().add_agent(One)
    same(st.ags["other"].unique_id, 0, "identifier of the first agent of another environment")
    env.add_agent(Ticker)
    for _ in range(task["k"]):
        ctx.step()
        op, *args = ctx.pick(task["ops"])
        if op == "tell":
            if args[0] in st.dead:
                raise Prune()
            st.tell(*args)
        elif op == "bcast":
            st.bcast(*args)
        elif op == "flood":
            for i in range(args[1]):
                st.tell(args[0]) if i % 3 else st.bcast("all")
        elif op == "process":
            if args[0] in st.dead:
                raise Prune()
            st.process(args[0])
        elif op == "advance":
            ctx.note("advance")
            env.step()
        elif op == "kill":
            if args[0] in st.dead:
                raise Prune()
            ctx.note("kill", args[0])
            st.dead.add(args[0])
            st.ags[args[0]].die()
        ctx.state([(i, [(len(repr(x[0])), x[1], x[2]) for x in b]) for (i, b) in st.inbox.items()], env.now, sorted(st.dead))
    for i in range(n):
        if i not in st.dead:
            # messages sent by the handlers are handled later on
            for _ in range(3):
                st.process(i)
    ctx.outcome([(i, repr(m)) for (i, m) in st.handled])


class Waiter:
    """Programs that wait for messages"""


def wait_program(self):
    st = CUR.st
    while True:
        w = st.begin(self)
        if w is None:
            return INF
        try:
            res = yield from self.received(**w)
        except events.TimedOut:
            res = events.TimedOut
        st.end(self, res)
        yield 0.5


async def wait_async(self):
    st = CUR.st
    while True:
        w = st.begin(self)
        if w is None:
            return INF
        try:
            res = await self.received(**w)
        except events.TimedOut:
            res = events.TimedOut
        st.end(self, res)
        await self.delay(0.5)


class WaitGen(agents.EventedAgent):
    step = wait_program

    def on_receive(self, msg, sender=None):
        CUR.st.handled.append(msg)


class WaitAsync(agents.EventedAgent):
    step = wait_async

    def on_receive(self, msg, sender=None):
        CUR.st.handled.append(msg)


class WaitFsm(agents.Agent):
    one = agents.state("one", default=True)(wait_program)

    def on_receive(self, msg, sender=None):
        CUR.st.handled.append(msg)


def waiting(ctx):
    """Waiting for messages, in generators and coroutines. Messages are sent between the polls."""
    task = ctx.task

    class S:
        pass
    st = CUR.st = S()
    st.handled = []
    sent = []        # (time, payload) that have not been handled
    waits = [0]
    info = {}
    env = scripted(environment.Environment, ctx, uniform=(0.0,))(schedule_class=stime.OrderedTimedActivation)

    def begin(agent):
        if waits[0] >= task["waits"]:
            return None
        waits[0] += 1
        w = dict(ctx.pick(task["menu"]))
        now = agent.now
        if "in" in w:
            w["expiration"] = now + w.pop("in")
        ctx.note(f"t={now}: wait {w}")
        ctx.step()
        deadline = w["expiration"] if "expiration" in w else now + w.get("timeout", 60)
        info.update(start=now, deadline=deadline, delay=w.get("delay", 1), process=w.get("process", True))
        st.handled.clear()
        return w

    def end(agent, res):
        now = agent.now
        ctx.note(f"t={now}: the wait ended with {res}")
        # The first poll with messages
        p = info["start"]
        want = events.TimedOut
        while p < info["deadline"]:
            if [x for x in sent if x[0] <= p]:
                want = "messages"
                break
            p += info["delay"]
        check(close(p, now), "the wait that started at {} ended at {}, instead of at {}", info["start"], now, p)
        if want is events.TimedOut:
            check(res is events.TimedOut, "the wait returned {!r}, and it should have timed out", res)
            same(st.handled, [], "messages handled by a wait that timed out")
            return
        check(res is not events.TimedOut, "the wait timed out at {}, with messages", now)
        msgs = [x[1] for x in sent]
        same([m.payload for m in res], msgs, "messages returned by the wait")
        if info["process"]:
            same(st.handled, msgs, "messages handled by the wait")
            sent.clear()
        else:
            same(st.handled, [], "messages handled by a wait that does not process them")
            agent.process_messages()
            same(st.handled, msgs, "messages handled after the wait")
            sent.clear()
        ctx.state(now, waits[0])

    st.begin, st.end = begin, end

    class Sender(agents.BaseAgent):
        left = task["sends"]

        def step(self):
            if self.now == 0:
                return 0.25
            if self.left <= 0:
                return INF
            self.left -= 1
            n = ctx.choose(3)
            for _ in range(n):
                p = {"n": len(sent), "t": self.now}
                ctx.note(f"t={self.now}: send {p}")
                if ctx.task.get("bcast"):
                    self.model.broadcast(p, sender=self)
                else:
                    waiter.tell(p, sender=self)
                sent.append((self.now, p))
            return 1

    waiter = env.add_agent({"gen": WaitGen, "async": WaitAsync, "fsm": WaitFsm}[task["kind"]])
    env.add_agent(Sender)
    steps = 0
    while env.running:
        steps += 1
        check(steps < 400, "the run does not end")
        env.step()
    ctx.outcome(env.schedule.steps, len(sent))


def received_by(base):
    class Born(base):
        """It does something while it is being initialized, and then handles its messages in each activation"""
        parent = None
        what = "none"

        def init(self):
            st = CUR.st
            st.born(self)

        def on_receive(self, msg, sender=None):
            CUR.st.got.append((self.unique_id, msg, sender))
    return Born


class BornPlain(received_by(agents.EventedAgent)):
    def step(self):
        self.process_messages()


class BornNet(received_by(agents.NetworkAgent), agents.EventedAgent):
    def step(self):
        self.process_messages()


class BornNet2(received_by(agents.EventedAgent), agents.NetworkAgent):
    def step(self):
        self.process_messages()


class BornFull(received_by(agents.Agent)):
    @agents.state(default=True)
    def only(self):
        self.process_messages()


BORN = {"plain": BornPlain, "net": BornNet, "net2": BornNet2, "full": BornFull}


class Init:
    def __init__(self, ctx):
        self.ctx = ctx
        self.got, self.want, self.done = [], {}, set()
        self.count = 0
        self.depth = 0

    def message(self):
        self.count += 1
        return f"m{self.count}"

    def born(self, agent):
        """The agent is being initialized"""
        self.want.setdefault(agent.unique_id, [])
        what = self.ctx.pick(["none", "self", "parent", "others", "child"])
        self.ctx.note(f"agent {agent.unique_id}, in its init: {what}")
        self.ctx.step()
        if what == "self":
            m = self.message()
            agent.tell(m, sender=agent)
            self.want[agent.unique_id].append((m, agent))
        elif what == "parent" and agent.parent is not None:
            m = self.message()
            agent.parent.tell(m, sender=agent)
            self.want[agent.parent.unique_id].append((m, agent))
        elif what == "others":
            m = self.message()
            agent.model.broadcast(m, sender=agent)
            for a in agent.model.get_agents():
                self.want[a.unique_id].append((m, agent))
        elif what == "child":
            if self.depth > 1:
                raise Prune()
            self.depth += 1
            agent.model.add_agent(BORN[self.ctx.task["kind"]], parent=agent)


def initial(ctx):
    """Messages that are sent while the agents are being initialized"""
    st = CUR.st = Init(ctx)
    env = scripted(environment.Environment, ctx, uniform=(0.0,))(schedule_class=stime.OrderedTimedActivation)
    for i in range(ctx.task["n"]):
        last = list(env.get_agents())[-1:]
        env.add_agent(BORN[ctx.task["kind"]], parent=last[0] if last else None)
        same(st.got, [], "messages handled before the first step")
    env.step()
    for (i, want) in st.want.items():
        got = [(m, s) for (j, m, s) in st.got if j == i]
        same([m for (m, _) in got], [m for (m, _) in want], f"messages handled by the agent {i}")
        check(all(a is b for ((_, a), (_, b)) in zip(got, want)), "wrong sender: {}", got)
    env.step()
    same(len(st.got), sum(map(len, st.want.values())), "messages handled in two steps")
    ctx.state({i: [m for (m, _) in w] for (i, w) in st.want.items()})
    ctx.outcome(st.count)


SCENARIOS = {"ops": ops, "waiting": waiting, "initial": initial}


def tasks(tier):
    big = tier == "thorough"
    core = [("tell", 0), ("tell", 1, 0), ("bcast", "all"), ("bcast", "all", 0), ("process", 0), ("process", 1), ("advance",)]
    exp = [("bcast", "ttl0"), ("bcast", "ttl1"), ("bcast", "exp0"), ("bcast", "exp2", 1), ("tell", 0), ("advance",), ("process", 0), ("process", 1)]
    filt = [("bcast", "class"), ("bcast", "flag", 1), ("bcast", "ids"), ("bcast", "all", 2), ("process", 1), ("kill", 0), ("kill", 2), ("bcast", "all", 3)]
    for classes in (["One", "Two"], ["Full", "Full"]):
        yield dict(scenario="ops", classes=classes, ops=core, k=5 + big, split=2)
        yield dict(scenario="ops", classes=classes, ops=exp, k=5 if classes[0] == "One" or big else 4, split=2)
        yield dict(scenario="ops", classes=classes, ops=[("tell", 0), ("tell", 1), ("process", 0), ("process", 1)], k=3 + big,
                   react=["none", "self", "other", "bcast", "bcast-all"], reactions=2, split=2)
        yield dict(scenario="ops", classes=classes, ops=[("tell", 0), ("bcast", "all"), ("process", 0)], k=4,
                   react=["none", "self", "process", "process-other"], reactions=2 + big, split=2)
        yield dict(scenario="ops", classes=classes, ops=core + [("bcast", "ttl1")], k=4 + big, same=True, split=2)
        yield dict(scenario="ops", classes=classes, ops=[("flood", 0, 70), ("flood", 1, 11), ("process", 0), ("process", 1), ("advance",)], k=3,
                   react=["none", "self"], reactions=1)
    yield dict(scenario="ops", classes=["One", "Two", "Full"], k=3 + big, split=1,
               ops=[("tell", 0, "other"), ("bcast", "all", "other"), ("bcast", "class", "other"), ("bcast", "ttl1", "other"), ("process", 0), ("process", 1), ("kill", 1)])
    yield dict(scenario="ops", classes=["One", "Two", "Full"], ops=filt, k=4 + big, split=2)
    for kind in BORN:
        yield dict(scenario="initial", kind=kind, n=2 + big)
    menu = [dict(timeout=2), dict(timeout=3, delay=2), dict(timeout=1.5, delay=0.5), {"in": 2.5}, {"in": 0}, dict(timeout=2, process=False)]
    for kind in ("gen", "async", "fsm"):
        for b in (False, True):
            yield dict(scenario="waiting", kind=kind, waits=2 + big, sends=4 if b else 5, menu=menu, bcast=b, split=1)
    yield dict(scenario="waiting", kind="gen", waits=1, sends=3, menu=[dict(), dict(delay=3), dict(delay=0.5, timeout=70)])


BOUNDS = {
    "quick": "3-5 operations on 2-3 agents with messages (out of 8), up to 2 reactions of the handlers; up to 2 waits with 5 kinds "
             "of deadlines and up to 5 sends of 0-2 messages; messages sent by 2-4 agents of 4 classes in their init",
    "thorough": "as quick, with one more operation, reaction or wait",
}
ASSUMPTIONS = ["a message expires when the time is strictly greater than its expiration",
               "a nested processing in a handler may also handle the messages that arrive meanwhile"]
