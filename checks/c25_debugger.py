"""C25: the debugger stops where it is told to, shows what there is, and changes nothing."""
import bdb
import contextlib
import gc
import io
import os
import pdb
import re
import signal
import sys

import soil
from soil import agents, debugging, environment, simulation
from soil import time as stime
from soil.agents import state
from mc.core import Violation, check, same, Prune
from mc.world import CUR


class Walker(agents.FSM):
    x = 1

    @state(default=True)
    def one(self):
        CUR.debug.ran(self, "one")
        self.x += 1
        return self.two

    @state
    def two(self):
        CUR.debug.ran(self, "two")
        yield 1
        self.x += 10
        CUR.debug.went_on(self)
        return self.one


class Other(agents.FSM):
    x = 100

    @state(default=True)
    def one(self):
        CUR.debug.ran(self, "one")
        self.x += 1
        if CUR.debug.inside(self):
            debugging.set_trace()
        return self.rest.delay(2)

    @state
    def rest(self):
        CUR.debug.ran(self, "rest")
        return "one"


class Late(agents.BaseAgent):
    """Not a state machine"""
    x = 7

    def step(self):
        CUR.debug.ran(self, "step")


CLASSES = {"Walker": Walker, "Other": Other}


class Env(environment.Environment):
    def init(self):
        CUR.debug.born(self)
        for c in CUR.debug.population:
            self.add_agent(c)

    def step(self):
        if CUR.debug.stepped(self):
            debugging.set_trace()
        super().step()


def debugger():
    for v in vars(debugging).values():
        if isinstance(v, pdb.Pdb):
            return v


def reset():
    """Each execution has its own debugger, without breakpoints"""
    sys.settrace(None)
    for (k, v) in list(vars(debugging).items()):
        if isinstance(v, pdb.Pdb):
            setattr(debugging, k, None)
    bdb.Breakpoint.clearBreakpoints()


class Plain:
    """A run without a debugger"""

    def __init__(self, population):
        self.population = population
        self.log = []

    def born(self, env):
        self.log.append("born")

    def ran(self, agent, name):
        self.log.append((agent.now, agent.unique_id, name, agent.x))

    def went_on(self, agent):
        self.log.append((agent.now, agent.unique_id, "went on", agent.x))

    def inside(self, agent):
        pass

    def stepped(self, env):
        self.log.append(("step", env.now))


class Debug(Plain):
    """The user of the debugger"""

    def __init__(self, ctx, task, population, out):
        super().__init__(population)
        self.ctx = ctx
        self.task = task
        self.left = task["k"]
        self.out = out
        self.mark = 0
        self.breaks = {}        # (class, state) -> (identifiers, temporary)
        self.next_step = self.stopped_step = False
        self.stop = None        # where the debugger is
        self.entry = False      # The debugger is entered explicitly
        self.entries = 0
        self.pending = None     # the command whose output has not been seen
        self.env = None
        self.ended = False

    # --- the program
    def born(self, env):
        super().born(env)
        self.env = env
        if self.task["entry"] == "simulation":
            self.entry = True

    def ran(self, agent, name):
        key = (type(agent).__name__, name)
        ids, temporary = self.breaks.get(key, ((), False))
        want = ids is None or agent.unique_id in ids
        if want and temporary:
            del self.breaks[key]
        self.expect(("state", *key, agent.unique_id) if want else None, f"agent {agent.unique_id} ({key}) at {agent.now}")
        super().ran(agent, name)

    def went_on(self, agent):
        self.expect(None, f"agent {agent.unique_id} went on at {agent.now}")
        super().went_on(agent)

    def inside(self, agent):
        if self.task["entry"] == "agent" and not self.entries:
            self.entry = True
            return True

    def stepped(self, env):
        self.expect(("step",) if self.next_step or self.stopped_step else None, f"step at {env.now}")
        self.stopped_step = False
        super().stepped(env)
        if self.task["entry"] == "step" and self.entries < self.task.get("entries", 1):
            self.entry = True
            return True

    def expect(self, want, where):
        """Something is run: the debugger should (or should not) have stopped just before"""
        got, self.stop = self.stop, None
        check(not self.entry, "the debugger was not entered before {}", where)
        same(got, want, f"stop of the debugger before: {where}")

    # --- the terminal
    def readline(self):
        ctx = self.ctx
        ctx.step()
        d = debugger()
        frame = d.curframe
        text = self.out.getvalue()[self.mark:]
        self.mark = len(self.out.getvalue())
        name = frame.f_code.co_name
        this = frame.f_locals.get("self")
        if self.pending is not None:
            self.check_output(self.pending, text)
            self.pending = None
        elif self.entry:
            self.entry = False
            self.entries += 1
            self.stop = None
            if self.task["entry"] == "simulation":
                same(os.path.basename(frame.f_code.co_filename), "simulation.py", "file where the debugger is")
            else:
                check(frame.f_code.co_filename == __file__, "the debugger is in {}", frame.f_code)
        else:
            check(self.stop is None, "the debugger stopped again, after {}", self.stop)
            if name == "step" and isinstance(this, Env):
                self.stop = ("step",)
                check(self.next_step, "the debugger stopped in a step at {}", self.env.now)
                self.next_step = False  # It may be asked to stop in the next one, too
                self.stopped_step = True
            elif isinstance(this, agents.FSM):
                self.stop = ("state", type(this).__name__, name, this.unique_id)
            else:
                raise Violation(f"the debugger stopped in {frame.f_code.co_filename}:{frame.f_lineno} ({name})")
            ctx.note(f"t={self.env.now} stopped at {self.stop}")
        ctx.state(self.stop, sorted((k, str(v)) for (k, v) in self.breaks.items()), self.env.now, self.left)
        cmd = "c"
        if self.left:
            cmd = ctx.pick(self.task["menu"])
            if cmd != "c":
                self.left -= 1
        ctx.note(f"    {cmd}")
        self.execute(cmd, this)
        return cmd + "\n"

    def execute(self, cmd, this):
        word, *args = cmd.split()
        if word in ("bs", "cs", "break_state", "continue_state"):
            where, *ids = args
            cls, _, name = where.rpartition(":")
            if not cls and word in ("cs", "continue_state"):
                raise AssertionError(cmd)
            self.add(cls, name, {int(i) for i in ids} or None, word in ("cs", "continue_state"))
            if word in ("bs", "break_state"):
                self.pending = cmd
        elif word == "bss":
            if not isinstance(this, agents.FSM):
                raise Prune()
            self.add(type(this).__name__, args[0], {this.unique_id}, False)
            self.pending = cmd
        elif word in ("bstep", "break_step"):
            if self.next_step:
                raise Prune()
            self.next_step = True
        elif word != "c":
            self.pending = (cmd, this)

    def add(self, cls, name, ids, temporary):
        found = False
        for c in ([cls] if cls else sorted({type(a).__name__ for a in self.env.get_agents() if isinstance(a, agents.FSM)} | {"Walker", "Other"})):
            if name in CLASSES[c].states():
                found = True
                if (c, name) in self.breaks:
                    raise Prune()  # There can only be one in the same place
                self.breaks[(c, name)] = (ids, temporary)
        if not found:
            raise Prune()

    def check_output(self, pending, text):
        if isinstance(pending, str):
            check("rror" not in text.replace("not found", "") or "***" not in text or "not found in class" in text, "{} failed: {}", pending, text)
            return
        cmd, this = pending
        word, *keys = cmd.split()
        lines = [l.strip(" -") for l in text.splitlines()]
        env = self.env
        if word in ("sl", "sa", "soil_list", "soil_agents"):
            shown = [a for a in env.get_agents()]
            heads = [l for l in lines if re.match(r"\w+\(\d+\)", l)]
            same([re.match(r"\w+\(\d+\)", l).group() for l in heads], [repr(a) for a in shown], f"agents shown by {cmd}")
            if word == "sl":
                for (l, a) in zip(heads, shown):
                    names = set(re.findall(r"\w+", l)) & {"one", "two", "rest", "dead"}
                    same(names, {a.state_id} if isinstance(a, agents.FSM) else set(), f"state shown for {a}")
            else:
                values = [l for l in lines if re.match(r"x: ", l)]
                same(values, [f"x: {a.x}" for a in shown], f"values shown by {cmd}")
                if keys:
                    check(not any(l.startswith("name:") for l in lines), "other values were shown: {}", lines)
        elif word == "aa":
            if isinstance(this, agents.BaseAgent):
                check(repr(this) in lines, "the agent {} is not in {}", this, lines)
                same([l for l in lines if re.match(r"x: ", l)], [f"x: {this.x}"], f"values shown by {cmd}")
            else:
                check(not any(re.match(r"\w+\(\d+\)$", l) for l in lines), "there is no agent here, but got {}", lines)
        else:
            raise AssertionError(cmd)


POPULATIONS = {
    "walkers": [Walker, Walker],
    "mixed": [Walker, Other, Walker],
    "others": [Walker, Other, Late],
    "crowd": [Walker, Other] * 13,
}


def simulate(task):
    if task["entry"] == "simulation":
        env = simulation.Simulation(name="debug", model=Env, max_steps=task["steps"], iterations=task.get("iterations", 1), dump=False, exporters=[],
                                    debug=isinstance(CUR.debug, Debug),
                                    parameters=dict(schedule_class=stime.OrderedTimedActivation)).run()[-1]
    else:
        env = Env(schedule_class=stime.OrderedTimedActivation)
        for _ in range(task["steps"]):
            env.step()
    return env


@contextlib.contextmanager
def terminal(user, out):
    keep = sys.stdin, sys.stdout, signal.getsignal(signal.SIGINT), dict(os.environ)
    reset()
    # The generators of previous executions should not be closed (i.e., run) under the debugger
    gc.collect()
    if not gc.get_freeze_count():
        gc.freeze()
    gc.disable()
    sys.stdin, sys.stdout = user, out
    try:
        yield
    finally:
        sys.settrace(None)
        sys.stdin, sys.stdout = keep[:2]
        signal.signal(signal.SIGINT, keep[2])
        os.environ.clear()
        os.environ.update(keep[3])
        gc.enable()
        reset()


def breaks(ctx):
    task = ctx.task
    population = POPULATIONS[task["population"]]
    CUR.debug = plain = Plain(population)
    data = simulate(task).model_df().to_dict()
    out = io.StringIO()
    CUR.debug = user = Debug(ctx, task, population, out)
    with terminal(user, out):
        env = simulate(task)
    got = env.model_df().to_dict()
    check(not user.entry and user.stop is None, "the debugger stopped at the end: {}", user.stop)
    same(user.log, plain.log, "what the model did (with and without the debugger)")
    same(got, data, "data (with and without the debugger)")
    ctx.outcome(user.entries, len(user.breaks), user.left)


class Failing(agents.FSM):
    x = 3

    @state(default=True)
    def one(self):
        self.x += 1
        if self.unique_id == 1 and self.now >= CUR.when:
            raise ArithmeticError("on purpose")
        return self.two

    @state
    def two(self):
        return self.one


class Fails(environment.Environment):
    def init(self):
        for i in range(3):
            self.add_agent(Failing)


class Postmortem:
    def __init__(self, ctx, out):
        self.ctx, self.out = ctx, out
        self.mark = 0
        self.prompts = 0
        self.pending = None

    def readline(self):
        ctx = self.ctx
        self.prompts += 1
        d = debugger()
        frame = d.curframe
        text = self.out.getvalue()[self.mark:]
        self.mark = len(self.out.getvalue())
        same(frame.f_code.co_name, "one", "function where the error was")
        this = frame.f_locals["self"]
        same((type(this), this.unique_id), (Failing, 1), "agent that failed")
        lines = [l.strip(" -") for l in text.splitlines()]
        env = this.model
        if self.pending == "sl":
            heads = [l for l in lines if re.match(r"\w+\(\d+\)", l)]
            same([re.match(r"\w+\(\d+\)", l).group() for l in heads], [repr(a) for a in env.get_agents()], "agents shown")
            for (l, a) in zip(heads, env.get_agents()):
                same(set(re.findall(r"\w+", l)) & {"one", "two"}, {a.state_id}, f"state shown for {a}")
        elif self.pending in ("aa", "aa x"):
            check(repr(this) in lines, "the agent {} is not in {}", this, lines)
            check(f"x: {this.x}" in lines, "its value is not in {}", lines)
        elif self.pending == "sa x":
            same([l for l in lines if l.startswith("x: ")], [f"x: {a.x}" for a in env.get_agents()], "values shown")
        ctx.step()
        cmd = ctx.pick(["q", "sl", "aa", "aa x", "sa x"]) if self.prompts <= ctx.task["k"] else "q"
        ctx.note(cmd)
        self.pending = cmd
        return cmd + "\n"


def postmortem(ctx):
    task = ctx.task
    CUR.when = ctx.choose(3)
    out = io.StringIO()
    user = Postmortem(ctx, out)
    sim = simulation.Simulation(name="fails", model=Fails, max_time=6, dump=False, exporters=[])
    with terminal(user, out):
        if task["how"] == "function":
            try:
                sim.run()
            except ArithmeticError:
                debugging.post_mortem()
        else:
            keep = list(sys.argv)
            sys.argv = ["soil", "--pdb", "--no-dump"]
            try:
                soil.main(sim)
            finally:
                sys.argv = keep
    check(user.prompts > 0, "the debugger was not started")
    ctx.state(user.prompts, CUR.when)
    ctx.outcome(user.prompts, CUR.when)


SCENARIOS = {"breaks": breaks, "postmortem": postmortem}


BREAKS = ["c", "bs Walker:one", "bs Walker:two", "bs Walker:one 0", "bs Walker:two 0 2", "bs one", "bs two 1 2", "bs Other:rest"]
SHOWS = ["c", "sl", "sa", "sa x", "aa", "aa x"]
MIXED = ["c", "bs Walker:two 0", "cs Walker:one", "cs Walker:two 2", "cs Other:rest", "bss two", "bss one", "bstep", "sl", "aa x"]


def tasks(tier):
    big = tier == "thorough"

    def t(entry, population, menu, k, steps=4, **kw):
        return dict(scenario="breaks", entry=entry, population=population, menu=menu, k=k + (1 if big else 0), steps=steps, split=1, **kw)
    for entry in ("step", "simulation", "agent"):
        for population in ("mixed", "walkers") if entry != "agent" else ("mixed", "others"):
            yield t(entry, population, BREAKS, 2)
            yield t(entry, population, MIXED, 2, steps=4 if entry == "simulation" else 6)
        yield t(entry, "others", SHOWS, 2)
        yield t(entry, "crowd", ["c", "sl", "sa x"], 1, steps=1)
    yield t("simulation", "mixed", ["c", "bs Walker:one 2", "cs Other:rest", "bstep", "sl"], 2, steps=2, iterations=2)
    yield t("step", "mixed", ["c", "bs Walker:one 2", "cs Other:rest", "bstep", "sl"], 2, entries=3)
    for how in ("function", "main"):
        yield dict(scenario="postmortem", how=how, k=2 + big)


BOUNDS = {
    "quick": "3 ways to enter the debugger, 3 populations with 2-3 agents of up to 3 classes, 4 steps (or 2 iterations with 2 steps), 2 commands out of "
             "6-10 at any of the points where the debugger stops; errors in 3 different moments, with 2 commands in the post mortem",
    "thorough": "as quick, with 3 commands",
}
ASSUMPTIONS = ["there is at most one breakpoint in each state", "no state is inherited from another class"]
