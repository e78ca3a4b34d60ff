"""C08: questions get their reply, or time out."""
from soil import agents, environment, events
from soil import time as stime
from mc.core import Violation, check, same, Prune
from mc.world import INF, CUR, scripted, close

REPLIES = [None, 0, "", False, "text", ("pair", 1), []]


class S:
    pass


def ask_gen(self):
    st = CUR.st
    while True:
        q = st.begin(self)
        if q is None:
            return INF
        (target, msg, kw) = q
        try:
            res = yield from target.ask(msg, **kw)
        except events.TimedOut:
            res = events.TimedOut
        st.end(self, res)
        yield 0.5


async def ask_async(self):
    st = CUR.st
    while True:
        q = st.begin(self)
        if q is None:
            return INF
        (target, msg, kw) = q
        try:
            res = await target.ask(msg, **kw)
        except events.TimedOut:
            res = events.TimedOut
        st.end(self, res)
        await self.delay(0.5)


class GenAsker(agents.EventedAgent):
    step = ask_gen


class AsyncAsker(agents.BaseAgent):
    step = ask_async


class FsmAsker(agents.Agent):
    one = agents.state("one", default=True)(ask_gen)


class Responder(agents.EventedAgent):
    """Processes its messages every now and then"""

    def step(self):
        if self.now == 0:
            return 0.25
        return CUR.st.respond(self)

    def on_receive(self, msg, sender=None):
        return CUR.st.handle(self, msg)


class WaitingResponder(agents.EventedAgent):
    def step(self):
        yield 0.25
        while True:
            try:
                yield from self.received(timeout=1.5, delay=CUR.st.task["wait"])
            except events.TimedOut:
                if not CUR.st.active():
                    return INF
            yield 1

    def on_receive(self, msg, sender=None):
        return CUR.st.handle(self, msg)


def ask(ctx):
    task = ctx.task
    st = CUR.st = S()
    st.task = task
    env = scripted(environment.Environment, ctx, uniform=(0.0,))(schedule_class=stime.OrderedTimedActivation)
    asked = {}     # asker -> dict with its current question
    every = []
    left = [task["questions"]]

    def begin(agent):
        if left[0] <= 0:
            return None
        left[0] -= 1
        kw = dict(ctx.pick(task["menu"]))
        if "in" in kw:
            kw["expiration"] = agent.now + kw.pop("in")
        t = ctx.pick(responders)
        msg = {"q": len(every), "by": agent.unique_id} if not task.get("same") else {"q": "?"}
        if "expiration" in kw:
            deadline = kw["expiration"]
        elif kw.get("timeout") is not None:
            deadline = agent.now + kw["timeout"]
        else:
            deadline = INF
        q = dict(msg=msg, start=agent.now, deadline=deadline, delay=kw.get("delay", 1), handled=None, reply=None,
                 target=t.unique_id, by=agent.unique_id, open=True)
        every.append(q)
        asked[agent.unique_id] = q
        ctx.step()
        ctx.note(f"t={agent.now}: agent {agent.unique_id} asks {t.unique_id}: {msg} {kw}")
        return t, msg, kw

    def active():
        return left[0] > 0 or any(q["open"] and q["handled"] is None for q in every)

    def handle(agent, msg):
        mine = [q for q in every if q["msg"] is msg]
        same(len(mine), 1, "questions with the payload that was received")
        q = mine[0]
        same(q["target"], agent.unique_id, "agent that handles the question")
        check(q["handled"] is None, "the question {} was handled twice", msg)
        q["handled"] = agent.now
        q["reply"] = ctx.pick(task["replies"])
        if q["reply"] == "payload":
            q["reply"] = ("reply to", [x is q for x in every].index(True))
        ctx.step()
        ctx.note(f"t={agent.now}: agent {agent.unique_id} handles {msg}: {q['reply']!r}")
        ctx.state([(q["handled"], repr(q["reply"]), q["start"], q["deadline"]) for q in every])
        return q["reply"]

    def process(agent):
        mine = [q for q in every if q["target"] == agent.unique_id and q["handled"] is None]
        agent.process_messages()
        for q in mine:
            check(q["handled"] is not None, "the question {} of agent {} was not handled by agent {} at {}", q["msg"], q["by"],
                  agent.unique_id, agent.now)

    def respond(agent):
        if not active():
            # The questions that timed out are still handled
            process(agent)
            return INF
        c = ctx.pick(task["responder"]) if budget[0] > 0 else "process"
        budget[0] -= 1
        if c == "process":
            process(agent)
            return 1
        if c == "skip":
            return 1
        if c == "late":
            return 2
        if c == "die":
            alive = [r for r in responders if r is not agent and r.alive]
            if not alive:
                raise Prune()
            return agent.die()

    def end(agent, res):
        now = agent.now
        q = asked[agent.unique_id]
        q["open"] = False
        ctx.note(f"t={now}: agent {agent.unique_id} gets {res!r}")
        p = q["start"]
        want = events.TimedOut
        while p < q["deadline"]:
            if q["handled"] is not None and q["handled"] <= p and q["reply"] is not None:
                want = q["reply"]
                break
            check(p <= now, "the question {} of agent {} ended at {}, without a reply or reaching its deadline ({})", q["msg"],
                  agent.unique_id, now, q["deadline"])
            p += q["delay"]
        check(close(p, now), "the question {} of agent {} ended at {}, instead of at {}", q["msg"], agent.unique_id, now, p)
        if want is events.TimedOut:
            check(res is events.TimedOut, "agent {} got {!r}, and it should have timed out", agent.unique_id, res)
        else:
            check(res is want, "agent {} got {!r} as the reply to {}, instead of {!r}", agent.unique_id, res, q["msg"], want)

    st.begin, st.end, st.respond, st.handle, st.active = begin, end, respond, handle, active
    budget = [task.get("budget", 4)]
    cls = WaitingResponder if task.get("wait") else Responder
    responders = [env.add_agent(cls) for _ in range(task.get("n_resp", 1))]
    askers = [env.add_agent({"gen": GenAsker, "async": AsyncAsker, "fsm": FsmAsker}[k]) for k in task["askers"]]
    steps = 0
    while env.running and env.now < 12:
        steps += 1
        check(steps < 400, "the run does not end")
        env.step()
    for q in every:
        if q["open"]:
            over = q["deadline"] + q["delay"] < 12
            answered = q["handled"] is not None and q["reply"] is not None and q["handled"] + q["delay"] + 0.5 < min(12, q["deadline"])
            check(not over and not answered, "the question {} was never resolved: {}", q["msg"], q)
    ctx.outcome([(q["handled"], repr(q["reply"]), q["open"]) for q in every])


SCENARIOS = {"ask": ask}


def tasks(tier):
    big = tier == "thorough"
    full = [dict(), dict(timeout=2), dict(timeout=3, delay=2), dict(timeout=1.5, delay=0.5), {"in": 2.5}, dict(timeout=0),
            {"in": 0}, dict(delay=3), {"in": 3, "timeout": 1}]
    some = [dict(timeout=2), dict(timeout=3.5, delay=0.5), {"in": 1.5}]
    replies = [None, 0, "", False, "text", "payload"]
    for kind in ("gen", "async", "fsm"):
        yield dict(scenario="ask", askers=[kind], questions=2 if not big else 3, menu=full, replies=["payload", None, 0, 0.0, ""],
                   responder=["process", "skip"], split=2)
        yield dict(scenario="ask", askers=[kind, kind], questions=2 + big, menu=some, replies=["payload", None, 0],
                   responder=["process", "skip", "late"], split=2)
        yield dict(scenario="ask", askers=[kind, kind], questions=3, menu=[dict(timeout=2), dict(timeout=4)], replies=["payload", None],
                   responder=["process", "skip"], budget=3, split=2)
        yield dict(scenario="ask", askers=[kind], questions=1, menu=full, replies=replies, responder=["process", "skip", "late"])
        for wait in (1, 0.5):
            yield dict(scenario="ask", askers=[kind, "gen"], questions=3, menu=some, replies=["payload", None, False], responder=[], wait=wait, split=2)
    yield dict(scenario="ask", askers=["gen", "async"], questions=3, menu=[dict(timeout=2), dict(timeout=5)], replies=["payload"], n_resp=2,
               responder=["process", "skip", "die"], split=2)
    for kind in ("gen", "async", "fsm"):
        yield dict(scenario="ask", askers=[kind, "gen"], questions=2 + big, menu=some, replies=["payload", None], same=True,
                   responder=["process", "skip", "late"], split=2)
        yield dict(scenario="ask", askers=[kind], questions=3, menu=[dict(timeout=1), dict(timeout=4)], replies=["payload", None], same=True,
                   responder=["process", "skip"], split=2)
    yield dict(scenario="ask", askers=["gen", "async"], questions=3, menu=[dict(timeout=2), dict(timeout=5)], replies=["payload"], n_resp=2,
               same=True, responder=["process", "skip"], split=2)
    yield dict(scenario="ask", askers=["gen", "async", "fsm"], questions=3, menu=some, replies=["payload", ""],
               responder=["process"], split=2)


BOUNDS = {
    "quick": "1-3 agents that ask up to 3 questions with 9 kinds of deadlines, 1-2 agents that answer them at any of the following "
             "instants (or never) with 6 kinds of replies",
    "thorough": "as quick, with one more question",
}
ASSUMPTIONS = ["a handler that returns None has not replied", "replies are produced between the checks of the agent that asks"]
