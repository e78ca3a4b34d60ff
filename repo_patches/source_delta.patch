From 1010c361903c5df3839e8ec9548f6537811dff76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:22 +0000
Subject: [PATCH 01/84] fix: honour the first activation time given when an
 agent is scheduled

PQueueActivation.add and TimedActivation.add passed 'when' in the position of
'replace', so it was ignored (TimedActivation) or, when not 0, it replaced the entry
of another agent (PQueueActivation). A time in the past means 'now'.
---
 soil/time.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/soil/time.py b/soil/time.py
index 9d73781..b6e9327 100644
--- a/soil/time.py
+++ b/soil/time.py
@@ -59,9 +59,9 @@ class PQueueActivation(DiscreteActivation):
         if when is None:
             when = self.time
         else:
-            when = float(when)
+            when = max(float(when), self.time)
 
-        self._schedule(agent, None, when)
+        self._schedule(agent, when)
         super().add(agent)
 
     def _schedule(self, agent, when=None, replace=False):
@@ -131,8 +131,8 @@ class TimedActivation(DiscreteActivation):
         if when is None:
             when = self.time
         else:
-            when = float(when)
-        self._schedule(agent, None, when)
+            when = max(float(when), self.time)
+        self._schedule(agent, when)
         super().add(agent)
 
     def _schedule(self, agent, when=None, replace=False):
-- 
2.43.0


From 5233e7a2cd28aa61cd601011d19b46efc7a3adaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:22 +0000
Subject: [PATCH 02/84] fix: do not drop queue entries when agents are added
 during a PQueueActivation step

The entry that was replaced after a step was the current head of the queue, which is
a different agent if the step added agents.
---
 soil/time.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/soil/time.py b/soil/time.py
index b6e9327..2de5092 100644
--- a/soil/time.py
+++ b/soil/time.py
@@ -95,18 +95,20 @@ class PQueueActivation(DiscreteActivation):
                 next_time = when
                 break
 
+            # The step may change the queue (e.g., by adding agents), so the
+            # entry has to be removed before the agent is activated
+            heappop(self._queue)
+
             try:
                 when = agent.step() or self.default_interval
                 when += now
             except DeadAgent:
-                heappop(self._queue)
                 continue
 
             if when == INFINITY:
-                heappop(self._queue)
                 continue
 
-            self._schedule(agent, when, replace=True)
+            self._schedule(agent, when)
 
         self.steps += 1
 
-- 
2.43.0


From ff1013f7c101c754a77459c6a0afcbf8b00fb20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:22 +0000
Subject: [PATCH 03/84] fix: a negative delay cannot move the simulation clock
 backwards

A step that returned a time in the past (e.g., self.at(t) with t < now) made the
schedulers rewind the clock. Treat it like a delay of zero (i.e., the default interval).
---
 soil/time.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/soil/time.py b/soil/time.py
index 2de5092..7a397d0 100644
--- a/soil/time.py
+++ b/soil/time.py
@@ -39,6 +39,13 @@ class DiscreteActivation(BaseScheduler):
         if hasattr(self.model, 'default_interval'):
             self.default_interval = self.model.interval
 
+    def _next_activation(self, agent, now):
+        '''Activate an agent, and return the time of its next activation.'''
+        delay = agent.step()
+        if not delay or delay < 0:  # Never go back in time
+            delay = self.default_interval
+        return now + delay
+
 
 class PQueueActivation(DiscreteActivation):
     """
@@ -100,8 +107,7 @@ class PQueueActivation(DiscreteActivation):
             heappop(self._queue)
 
             try:
-                when = agent.step() or self.default_interval
-                when += now
+                when = self._next_activation(agent, now)
             except DeadAgent:
                 continue
 
@@ -170,8 +176,7 @@ class TimedActivation(DiscreteActivation):
             self.model.random.shuffle(bucket)
         for agent in bucket:
             try:
-                when = agent.step() or self.default_interval
-                when += now
+                when = self._next_activation(agent, now)
             except DeadAgent:
                 continue
 
-- 
2.43.0


From 1754d3036000e3dcb303447c088abb6c4ac40241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:22 +0000
Subject: [PATCH 04/84] fix: use the default_interval of the model in the
 schedulers

Defining default_interval in a model raised an AttributeError, and giving it as
a parameter of the environment had no effect.
---
 soil/environment.py | 6 +++---
 soil/time.py        | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/soil/environment.py b/soil/environment.py
index 743da85..876c475 100644
--- a/soil/environment.py
+++ b/soil/environment.py
@@ -94,15 +94,15 @@ class BaseEnvironment(Model):
         else:
             self.logger = utils.logger.getChild(self.id)
 
+        for (k, v) in env_params.items():
+            self[k] = v
+
         self.schedule = schedule
         if schedule is None:
             if schedule_class is None:
                 schedule_class = self.schedule_class
             self.schedule = schedule_class(self)
 
-        for (k, v) in env_params.items():
-            self[k] = v
-
         if agents:
             self.add_agents(**agents)
         if init:
diff --git a/soil/time.py b/soil/time.py
index 7a397d0..edab9e4 100644
--- a/soil/time.py
+++ b/soil/time.py
@@ -37,7 +37,7 @@ class DiscreteActivation(BaseScheduler):
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
         if hasattr(self.model, 'default_interval'):
-            self.default_interval = self.model.interval
+            self.default_interval = self.model.default_interval
 
     def _next_activation(self, agent, now):
         '''Activate an agent, and return the time of its next activation.'''
-- 
2.43.0


From fb2c4ae602756830843b817d6fbd038832ab66d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:22 +0000
Subject: [PATCH 05/84] fix: stop the model in TimedActivation when there are
 no pending activations

Otherwise, a simulation without a maximum time would never end once
every agent is dead (PQueueActivation already stopped the model).
---
 soil/time.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/soil/time.py b/soil/time.py
index edab9e4..df0744e 100644
--- a/soil/time.py
+++ b/soil/time.py
@@ -161,6 +161,7 @@ class TimedActivation(DiscreteActivation):
         an agent will signal when it wants to be scheduled next.
         """
         if not self._queue:
+            self.model.running = False
             return
 
         now = self.time
@@ -187,6 +188,7 @@ class TimedActivation(DiscreteActivation):
         if self._queue:
             self.time = self._queue[0][0]
         else:
+            self.model.running = False
             self.time = INFINITY
 
 
-- 
2.43.0


From 1bc419c0ebaf8c632f0e6857c37a06bcda333d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:22 +0000
Subject: [PATCH 06/84] fix: never activate an agent after its death

Agents killed by another agent, and agents that called die() without returning its
value, were still activated (or resumed in the middle of a state). An FSM agent that
was stepped repeatedly after its death only raised DeadAgent every other time,
because the exhausted coroutine was kept.
---
 soil/agents/__init__.py |  3 +++
 soil/time.py            | 10 ++++++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/soil/agents/__init__.py b/soil/agents/__init__.py
index 08f71b5..19db71b 100644
--- a/soil/agents/__init__.py
+++ b/soil/agents/__init__.py
@@ -39,6 +39,9 @@ def decorate_generator_step(func, name):
             except StopIteration as ex:
                 self._coroutine = None
                 val = ex.value
+            except Exception:
+                self._coroutine = None
+                raise
             finally:
                 self._last_return = None
                 self._last_except = None
diff --git a/soil/time.py b/soil/time.py
index df0744e..786e804 100644
--- a/soil/time.py
+++ b/soil/time.py
@@ -106,12 +106,15 @@ class PQueueActivation(DiscreteActivation):
             # entry has to be removed before the agent is activated
             heappop(self._queue)
 
+            if not getattr(agent, "alive", True):
+                continue
+
             try:
                 when = self._next_activation(agent, now)
             except DeadAgent:
                 continue
 
-            if when == INFINITY:
+            if when == INFINITY or not getattr(agent, "alive", True):
                 continue
 
             self._schedule(agent, when)
@@ -176,12 +179,15 @@ class TimedActivation(DiscreteActivation):
         if self._shuffle:
             self.model.random.shuffle(bucket)
         for agent in bucket:
+            if not getattr(agent, "alive", True):
+                continue
+
             try:
                 when = self._next_activation(agent, now)
             except DeadAgent:
                 continue
 
-            if when != INFINITY:
+            if when != INFINITY and getattr(agent, "alive", True):
                 self._schedule(agent, when, replace=True)
 
         self.steps += 1
-- 
2.43.0


From 7b3e93768fb4b32eee6aeed3108687a764e463ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:26 +0000
Subject: [PATCH 07/84] fix: accept two-character state ids as the result of a
 state

The string was unpacked as if it was a (state, delay) tuple.
---
 soil/agents/fsm.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/soil/agents/fsm.py b/soil/agents/fsm.py
index 85a5fb5..bc5e659 100644
--- a/soil/agents/fsm.py
+++ b/soil/agents/fsm.py
@@ -143,17 +143,16 @@ class FSM(BaseAgent, metaclass=MetaFSM):
         self._check_alive()
         next_state = yield from self._state.step(self)
 
-        try:
+        if isinstance(next_state, (tuple, list)):
             next_state, when = next_state
-        except (TypeError, ValueError) as ex:
-            try:
-                self._set_state(next_state)
-                return None
-            except ValueError:
-                return next_state
-
-        self._set_state(next_state)
-        return when
+            self._set_state(next_state)
+            return when
+
+        try:
+            self._set_state(next_state)
+            return None
+        except ValueError:
+            return next_state
 
     def _set_state(self, state):
         if state is None:
-- 
2.43.0


From 92b112dfa3f18c57dcbe5e28e10e241f0e13b370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:26 +0000
Subject: [PATCH 08/84] fix: agents start in the overridden version of the
 default state

When a subclass redefined the default state of its parent without marking it as
default again, agents would start in the version of the parent.
---
 soil/agents/fsm.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/soil/agents/fsm.py b/soil/agents/fsm.py
index bc5e659..9373e62 100644
--- a/soil/agents/fsm.py
+++ b/soil/agents/fsm.py
@@ -83,10 +83,9 @@ class MetaFSM(MetaAgent):
         default_state = None
         for i in bases:
             if isinstance(i, MetaFSM):
-                for state_id, state in i._states.items():
-                    if state.default:
-                        default_state = state
-                    states[state_id] = state
+                if i._state is not None:
+                    default_state = i._state
+                states.update(i._states)
 
         # Add new states
         for attr, func in namespace.items():
@@ -95,6 +94,10 @@ class MetaFSM(MetaAgent):
                     default_state = func
                 states[func.name] = func
 
+        # The default state may have been overridden
+        if default_state is not None:
+            default_state = states[default_state.name]
+
         namespace.update(
             {
                 "_state": default_state,
-- 
2.43.0


From bcca10a736e2f7916c32edaed5256cb261b13745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:26 +0000
Subject: [PATCH 09/84] fix: do not lose or repeat messages when processing the
 inbox

received() returned the inbox after it had been emptied, a handler that sent a
message to its own agent raised a RuntimeError, and messages were
processed again when a handler failed.
---
 soil/agents/evented.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/soil/agents/evented.py b/soil/agents/evented.py
index 5cf69dc..f7cb70d 100644
--- a/soil/agents/evented.py
+++ b/soil/agents/evented.py
@@ -20,10 +20,9 @@ class EventedAgent(BaseAgent):
             expiration = self.now + timeout
         while self.now < expiration:
             if self._inbox:
-                msgs = self._inbox
                 if process:
-                    self.process_messages()
-                return msgs
+                    return self.process_messages()
+                return self._inbox
             yield self.delay(delay)
         raise TimedOut("No message received")
 
@@ -43,7 +42,11 @@ class EventedAgent(BaseAgent):
 
     def process_messages(self):
         valid = list()
-        for msg in self._inbox:
+        # Handlers may modify the inbox (e.g., by sending messages to this agent)
+        for _ in range(len(self._inbox)):
+            if not self._inbox:
+                break
+            msg = self._inbox.popleft()
             self._processed += 1
             if msg.expired(self.now):
                 continue
@@ -51,7 +54,6 @@ class EventedAgent(BaseAgent):
             reply = self.on_receive(msg.payload, sender=msg.sender)
             if isinstance(msg, Ask):
                 msg.reply = reply
-        self._inbox.clear()
         return valid
 
 
-- 
2.43.0


From 2980e98de29fd28ab5695d5906c54d0c7521b0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:26 +0000
Subject: [PATCH 10/84] fix: deliver falsy replies and honour the expiration in
 ask

---
 soil/agents/evented.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/soil/agents/evented.py b/soil/agents/evented.py
index f7cb70d..667b815 100644
--- a/soil/agents/evented.py
+++ b/soil/agents/evented.py
@@ -33,9 +33,10 @@ class EventedAgent(BaseAgent):
     def ask(self, msg, expiration=None, timeout=None, delay=1):
         ask = Ask(timestamp=self.now, payload=msg, sender=self)
         self._inbox.append(ask)
-        expiration = float("inf") if timeout is None else self.now + timeout
+        if expiration is None:
+            expiration = float("inf") if timeout is None else self.now + timeout
         while self.now < expiration:
-            if ask.reply:
+            if ask.reply is not None:
                 return ask.reply
             yield self.delay(delay)
         raise TimedOut("No reply received")
-- 
2.43.0


From 488110a1e7febb62798ca0164d39399120298630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:26 +0000
Subject: [PATCH 11/84] fix: assign a free node to network agents whenever
 there is one

Nodes were chosen with replacement, so free nodes could be missed. In that case, the id
of the new node could be that of an existing node, whose agent was replaced. Nodes
that are reserved for other agents are not free.
---
 soil/agents/network_agents.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/soil/agents/network_agents.py b/soil/agents/network_agents.py
index 2d0a948..d07f71c 100644
--- a/soil/agents/network_agents.py
+++ b/soil/agents/network_agents.py
@@ -8,13 +8,16 @@ class NetworkAgent(BaseAgent):
         self.G = topology or self.model.G
         assert self.G is not None, "Network agents should have a network"
         if node_id is None:
-            nodes = self.random.choices(list(self.G.nodes), k=len(self.G))
+            nodes = list(self.G.nodes)
+            self.random.shuffle(nodes)
             for n_id in nodes:
-                if "agent" not in self.G.nodes[n_id] or self.G.nodes[n_id]["agent"] is None:
+                if "agent" not in self.G.nodes[n_id]:
                     node_id = n_id
                     break
             else:
                 node_id = len(self.G)
+                while node_id in self.G:
+                    node_id += 1
                 self.info(f"All nodes ({len(self.G)}) have an agent assigned, adding a new node to the graph for agent {self.unique_id}")
                 self.G.add_node(node_id)
         assert node_id is not None
-- 
2.43.0


From 8f126310ffb469fc666e9b0ac54eb3e603068561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:26 +0000
Subject: [PATCH 12/84] fix: filter by unique_id in the queries of network
 agents

---
 soil/agents/network_agents.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/soil/agents/network_agents.py b/soil/agents/network_agents.py
index d07f71c..23c52ab 100644
--- a/soil/agents/network_agents.py
+++ b/soil/agents/network_agents.py
@@ -41,11 +41,11 @@ class NetworkAgent(BaseAgent):
 
     def iter_agents(self, unique_id=None, *, limit_neighbors=False, **kwargs):
         unique_ids = None
-        if unique_ids is not None:
+        if unique_id is not None:
             try:
-                unique_ids = set(unique_id)
+                unique_ids = list(unique_id)
             except TypeError:
-                unique_ids = set([unique_id])
+                unique_ids = [unique_id]
 
         if limit_neighbors:
             neighbor_ids = set()
@@ -54,12 +54,11 @@ class NetworkAgent(BaseAgent):
                 if agent is not None:
                     neighbor_ids.add(agent.unique_id)
             if unique_ids:
-                unique_ids = unique_ids & neighbor_ids
+                unique_ids = list(neighbor_ids.intersection(unique_ids))
             else:
-                unique_ids = neighbor_ids
+                unique_ids = list(neighbor_ids)
             if not unique_ids:
                 return
-            unique_ids = list(unique_ids)
         yield from super().iter_agents(unique_id=unique_ids, **kwargs)
 
     def subgraph(self, center=True, **kwargs):
-- 
2.43.0


From 14497d2e1636ea2602d997ba1a8f4c9433ab80c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:26 +0000
Subject: [PATCH 13/84] fix: apply every criterion when filtering agents

Only the last attribute was taken into account (late binding), the state given by the caller was
modified, and filtering by state failed for mesa agents.
---
 soil/agents/__init__.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/soil/agents/__init__.py b/soil/agents/__init__.py
index 19db71b..e28ee1c 100644
--- a/soil/agents/__init__.py
+++ b/soil/agents/__init__.py
@@ -473,18 +473,17 @@ def filter_agents(
             agent_class = tuple([agent_class])
 
     if state_id is not None:
-        f = filter(lambda agent: agent.get("state_id", None) in state_id, f)
+        f = filter(lambda agent: getattr(agent, "state_id", None) in state_id, f)
 
     if agent_class is not None:
         f = filter(lambda agent: isinstance(agent, agent_class), f)
 
-    state = state or dict()
-    state.update(kwargs)
+    state = dict(state or {}, **kwargs)
 
     for k, vs in state.items():
         if not isinstance(vs, list):
             vs = [vs]
-        f = filter(lambda agent: any(getattr(agent, k, None) == v for v in vs), f)
+        f = filter(lambda agent, k=k, vs=vs: any(getattr(agent, k, None) == v for v in vs), f)
 
     if limit is not None:
         f = islice(f, limit)
-- 
2.43.0


From cc258ca778d77dafc77eae111ca5f5e469332fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:12 +0000
Subject: [PATCH 14/84] fix: allow agents to die after their node has been
 removed

---
 soil/agents/network_agents.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/agents/network_agents.py b/soil/agents/network_agents.py
index 23c52ab..e9fd477 100644
--- a/soil/agents/network_agents.py
+++ b/soil/agents/network_agents.py
@@ -92,7 +92,7 @@ class NetworkAgent(BaseAgent):
     def die(self, remove=True):
         if not self.alive:
             return None
-        if remove:
+        if remove and self.node_id is not None:
             self.remove_node()
         return super().die()
 
-- 
2.43.0


From ea223d172c7cd795246a6b4d31e952502b89e4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:12 +0000
Subject: [PATCH 15/84] fix: ignore agents that are not in the network in
 subgraph

---
 soil/agents/network_agents.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/soil/agents/network_agents.py b/soil/agents/network_agents.py
index e9fd477..ee3d071 100644
--- a/soil/agents/network_agents.py
+++ b/soil/agents/network_agents.py
@@ -64,7 +64,9 @@ class NetworkAgent(BaseAgent):
     def subgraph(self, center=True, **kwargs):
         include = [self] if center else []
         G = self.G.subgraph(
-            n.node_id for n in list(self.get_agents(**kwargs) + include)
+            n.node_id
+            for n in list(self.get_agents(**kwargs) + include)
+            if getattr(n, "node_id", None) is not None
         )
         return G
 
-- 
2.43.0


From def1278d42ff31f301ea5864e069d7c0070e63f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:12 +0000
Subject: [PATCH 16/84] fix: set the attributes given to add_edge in the edge

They were stored together, under a single 'edge_attr_dict' attribute.
---
 soil/agents/network_agents.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soil/agents/network_agents.py b/soil/agents/network_agents.py
index ee3d071..fd2da07 100644
--- a/soil/agents/network_agents.py
+++ b/soil/agents/network_agents.py
@@ -75,7 +75,7 @@ class NetworkAgent(BaseAgent):
         self.G.remove_node(self.node_id)
         self.node_id = None
 
-    def add_edge(self, other, edge_attr_dict=None, *edge_attrs):
+    def add_edge(self, other, edge_attr_dict=None, **edge_attrs):
         if self.node_id not in self.G.nodes(data=False):
             raise ValueError(
                 "{} not in list of existing agents in the network".format(
@@ -88,7 +88,7 @@ class NetworkAgent(BaseAgent):
             )
 
         self.G.add_edge(
-            self.node_id, other.node_id, edge_attr_dict=edge_attr_dict, *edge_attrs
+            self.node_id, other.node_id, **dict(edge_attr_dict or {}, **edge_attrs)
         )
 
     def die(self, remove=True):
-- 
2.43.0


From 9ddc239da392d22bfa7e6c08317ed958226c9192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:12 +0000
Subject: [PATCH 17/84] fix: make the views of agents work with the agent sets
 of mesa

Iterating over env.get_agents, getting an agent by its id and checking whether an id
exists all failed or gave the wrong result, because a dictionary was expected.
---
 soil/agents/__init__.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/soil/agents/__init__.py b/soil/agents/__init__.py
index e28ee1c..f96d590 100644
--- a/soil/agents/__init__.py
+++ b/soil/agents/__init__.py
@@ -404,13 +404,14 @@ class AgentView(Mapping, Set):
         return len(self._agents)
 
     def __iter__(self):
-        yield from self._agents.values()
+        yield from self._agents
 
     def __getitem__(self, agent_id):
         if isinstance(agent_id, slice):
             raise ValueError(f"Slicing is not supported")
-        if agent_id in self._agents:
-            return self._agents[agent_id]
+        for agent in self._agents:
+            if agent.unique_id == agent_id:
+                return agent
         raise ValueError(f"Agent {agent_id} not found")
 
     def filter(self, *args, **kwargs):
@@ -423,10 +424,10 @@ class AgentView(Mapping, Set):
         return list(self.filter(*args, **kwargs))
 
     def __contains__(self, agent_id):
-        return agent_id in self._agents
+        return any(agent.unique_id == agent_id for agent in self._agents)
 
     def __str__(self):
-        return str(list(unique_id for unique_id in self.keys()))
+        return str(list(agent.unique_id for agent in self._agents))
 
     def __repr__(self):
         return f"{self.__class__.__name__}({self})"
-- 
2.43.0


From 91f3aefff7ff1b25df0fc282d5538e9a58bb0a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:12 +0000
Subject: [PATCH 18/84] fix: do not share a graph between environments

A graph given as the topology of a simulation was used (and modified) by every iteration, so
the nodes already had agents in the second one.
---
 soil/network.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soil/network.py b/soil/network.py
index 6fac221..2855af6 100644
--- a/soil/network.py
+++ b/soil/network.py
@@ -14,7 +14,8 @@ def from_topology(topology, dir_path: str = None):
     if topology is None:
         return nx.Graph()
     if isinstance(topology, nx.Graph):
-        return topology
+        # The environment will modify the graph, which may be shared
+        return topology.copy()
 
     # If it's a dict, assume it's a node-link graph
     if isinstance(topology, dict):
-- 
2.43.0


From c3f184518f772d628c1f34f09bc194e226f4f110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:12 +0000
Subject: [PATCH 19/84] fix: do not modify the reporters of a simulation when
 it is run

The reporters in the parameters of one configuration were also used
in every other configuration, and in later runs.
---
 soil/datacollection.py | 4 ++--
 soil/simulation.py     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/soil/datacollection.py b/soil/datacollection.py
index 9687435..aa40e63 100644
--- a/soil/datacollection.py
+++ b/soil/datacollection.py
@@ -3,8 +3,8 @@ from mesa import DataCollector as MDC
 
 class SoilCollector(MDC):
     def __init__(self, model_reporters=None, agent_reporters=None, tables=None, **kwargs):
-        model_reporters = model_reporters or {}
-        agent_reporters = agent_reporters or {}
+        model_reporters = dict(model_reporters or {})
+        agent_reporters = dict(agent_reporters or {})
         tables = tables or {}
         if 'agent_count' not in model_reporters:
             model_reporters['agent_count'] = lambda m: m.schedule.get_agent_count()
diff --git a/soil/simulation.py b/soil/simulation.py
index 389207b..0b79f6d 100644
--- a/soil/simulation.py
+++ b/soil/simulation.py
@@ -217,9 +217,9 @@ class Simulation:
 
         iteration_id = str(iteration_id)
 
-        agent_reporters = self.agent_reporters
+        agent_reporters = dict(self.agent_reporters)
         agent_reporters.update(params.pop("agent_reporters", {}))
-        model_reporters = self.model_reporters
+        model_reporters = dict(self.model_reporters)
         model_reporters.update(params.pop("model_reporters", {}))
 
         return self.model(
-- 
2.43.0


From ed3974af0973e82508d2ef1e06a7dd92ed457eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:12 +0000
Subject: [PATCH 20/84] fix: report the value returned by methods decorated
 with @report

The bound method was collected instead of its value.
---
 soil/environment.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/soil/environment.py b/soil/environment.py
index 876c475..035c3d2 100644
--- a/soil/environment.py
+++ b/soil/environment.py
@@ -57,10 +57,12 @@ class BaseEnvironment(Model):
         )
         for k in dir(cls):
             v = getattr(cls, k)
+            reporter = v
             if isinstance(v, property):
                 v = v.fget
+                reporter = k
             if getattr(v, "add_to_report", False):
-                self.add_model_reporter(k, k)
+                self.add_model_reporter(k, reporter)
 
         return self
 
-- 
2.43.0


From 7b655dc534f6867b67c8432f16bb643570b928d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:12 +0000
Subject: [PATCH 21/84] fix: infinite recursion in agent reporters that are
 limited to a type of agent

---
 soil/environment.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/soil/environment.py b/soil/environment.py
index 035c3d2..1292e10 100644
--- a/soil/environment.py
+++ b/soil/environment.py
@@ -209,11 +209,14 @@ class BaseEnvironment(Model):
         self.datacollector._new_model_reporter(name, func)
 
     def add_agent_reporter(self, name, reporter=None, agent_type=None):
-        if not agent_type and not reporter:
+        if not reporter:
             reporter = name
-        elif agent_type:
-            reporter = lambda a: reporter(a) if isinstance(a, agent_type) else None
         self.datacollector._new_agent_reporter(name, reporter)
+        if agent_type:
+            func = self.datacollector.agent_reporters[name]
+            self.datacollector.agent_reporters[name] = (
+                lambda a: func(a) if isinstance(a, agent_type) else None
+            )
 
     @classmethod
     def run(cls, *,
-- 
2.43.0


From 8b5c2264cfc706602208b2fad1731f9bc4e529fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:49 +0000
Subject: [PATCH 22/84] fix: use the time of each step in agent_df

Times were assigned by position, which is wrong when there are
steps without any agents and fails when several steps happen at the same time.
---
 soil/environment.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/soil/environment.py b/soil/environment.py
index 1292e10..8be86a8 100644
--- a/soil/environment.py
+++ b/soil/environment.py
@@ -13,6 +13,7 @@ from copy import deepcopy
 
 
 import networkx as nx
+import pandas as pd
 
 from mesa import Model, Agent
 
@@ -130,7 +131,10 @@ class BaseEnvironment(Model):
             df.index.rename(["step", "agent_id"], inplace=True)
             return df
         model_df = self.datacollector.get_model_vars_dataframe()
-        df.index = df.index.set_levels(model_df.time, level=0).rename(["time", "agent_id"])
+        times = model_df.time.reindex(df.index.get_level_values(0))
+        df.index = pd.MultiIndex.from_arrays(
+            [times, df.index.get_level_values(1)], names=["time", "agent_id"]
+        )
         return df
 
     def model_df(self, steps=False):
-- 
2.43.0


From 7ef4c790a95f3324837df34043f496f50a18ff30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:49 +0000
Subject: [PATCH 23/84] fix: models with arbitrary values could not be run with
 level=DEBUG

---
 soil/environment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/environment.py b/soil/environment.py
index 8be86a8..c83d9db 100644
--- a/soil/environment.py
+++ b/soil/environment.py
@@ -204,7 +204,7 @@ class BaseEnvironment(Model):
             msg = "Model data:\n"
             max_width = max(len(k) for k in self.datacollector.model_vars.keys())
             for (k, v) in self.datacollector.model_vars.items():
-                msg += f"\t{k:<{max_width}}: {v[-1]:>6}\n"
+                msg += f"\t{k:<{max_width}}: {str(v[-1]):>6}\n"
             self.logger.debug(f"--- Steps: {self.schedule.steps:^5} - Time: {self.now:^5} --- " + msg)
 
     def add_model_reporter(self, name, func=None):
-- 
2.43.0


From 7bcd15f5e0c854b4feedf9ebfc656bdbb7817c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:49 +0000
Subject: [PATCH 24/84] fix: SQLite results of simulations without parameters
 or agent reporters

The exporter failed unless another exporter had created the output folder, the table of parameters was
invalid without parameters, and read_sql failed without agent reporters.
---
 soil/analysis.py  | 6 +++++-
 soil/exporters.py | 4 +++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/soil/analysis.py b/soil/analysis.py
index ab7164c..0a35172 100644
--- a/soil/analysis.py
+++ b/soil/analysis.py
@@ -46,7 +46,11 @@ def read_sql(fpath=None, name=None, include_agents=False):
                                     "simulation_id", "params_id",
                                     "iteration_id", "step"
                                 ])
-        agents = pd.read_sql_table("agents", con=conn, index_col=["simulation_id", "params_id", "iteration_id", "step", "agent_id"])
+        agents_index = ["simulation_id", "params_id", "iteration_id", "step", "agent_id"]
+        if sqlalchemy.inspect(engine).has_table("agents"):
+            agents = pd.read_sql_table("agents", con=conn, index_col=agents_index)
+        else:  # There were no agent reporters
+            agents = pd.DataFrame(columns=agents_index).set_index(agents_index)
         config = pd.read_sql_table("configuration", con=conn, index_col="simulation_id")
         parameters = pd.read_sql_table("parameters", con=conn, index_col=["iteration_id", "params_id", "simulation_id"])
         try:
diff --git a/soil/exporters.py b/soil/exporters.py
index 8986453..35d5a93 100644
--- a/soil/exporters.py
+++ b/soil/exporters.py
@@ -134,6 +134,7 @@ class SQLite(Exporter):
             if os.path.exists(self.dbpath):
                 os.remove(self.dbpath)
         
+        os.makedirs(self.outdir, exist_ok=True)
         self.engine = create_engine(f"sqlite:///{self.dbpath}", echo=False)
 
         sim_dict = {k: serialize(v)[0] for (k,v) in self.simulation.to_dict().items()}
@@ -154,7 +155,8 @@ class SQLite(Exporter):
                            "params_id": params_id,
                            "iteration_id": env.id,
                            "key": k,
-                           "value": serialize(v)[0]} for (k,v) in params.items()]).to_sql("parameters", con=self.engine, if_exists="append")
+                           "value": serialize(v)[0]} for (k,v) in params.items()],
+                         columns=["simulation_id", "params_id", "iteration_id", "key", "value"]).to_sql("parameters", con=self.engine, if_exists="append")
 
             for (t, df) in self.get_dfs(env, params_id=params_id):
                 df.to_sql(t, con=self.engine, if_exists="append")
-- 
2.43.0


From a411eca2de2c0695cb8d27b9df8fe80035f185ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:49 +0000
Subject: [PATCH 25/84] fix: GEXF files of networks with agents

Agents are not valid attributes for a node, so the exporter failed. Moreover, any AttributeError
or TypeError while writing to a file was reported as 'generator didn't stop after throw'.
---
 soil/exporters.py | 5 ++++-
 soil/utils.py     | 6 ++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/soil/exporters.py b/soil/exporters.py
index 35d5a93..bb21863 100644
--- a/soil/exporters.py
+++ b/soil/exporters.py
@@ -188,7 +188,10 @@ class gexf(Exporter):
             "[GEXF] Dumping simulation {} iteration {}".format(self.simulation.name, env.id)
         ):
             with self.output("{}.gexf".format(env.id), mode="wb") as f:
-                nx.write_gexf(env.G, f)
+                G = env.G.copy()
+                for (_, data) in G.nodes(data=True):
+                    data.pop("agent", None)
+                network.dump_gexf(G, f)
 
 
 class dummy(Exporter):
diff --git a/soil/utils.py b/soil/utils.py
index 3a00a9b..9155ed1 100644
--- a/soil/utils.py
+++ b/soil/utils.py
@@ -79,10 +79,12 @@ def safe_open(path, mode="r", backup=True, **kwargs):
 @contextmanager
 def open_or_reuse(f, *args, **kwargs):
     try:
-        with safe_open(f, *args, **kwargs) as f:
-            yield f
+        opened = safe_open(f, *args, **kwargs)
     except (AttributeError, TypeError) as ex:
         yield f
+        return
+    with opened:
+        yield opened
 
 
 def flatten_dict(d):
-- 
2.43.0


From 818e34db3206bad2a6f342b8f8dfdb448f509eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:49 +0000
Subject: [PATCH 26/84] fix: do not overwrite a previous backup made in the
 same second

---
 soil/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/soil/utils.py b/soil/utils.py
index 9155ed1..dd9cf42 100644
--- a/soil/utils.py
+++ b/soil/utils.py
@@ -59,7 +59,11 @@ def try_backup(path, remove=False):
     backup_dir = os.path.join(outdir, "backup")
     if not os.path.exists(backup_dir):
         os.makedirs(backup_dir)
-    newpath = os.path.join(backup_dir, "{}@{}".format(os.path.basename(path), stamp))
+    newpath = base = os.path.join(backup_dir, "{}@{}".format(os.path.basename(path), stamp))
+    copies = 0
+    while os.path.exists(newpath):
+        copies += 1
+        newpath = "{}.{}".format(base, copies)
     if remove:
         move(path, newpath)
     else:
-- 
2.43.0


From e3c4c563fcc31bb8400fae4555c1487feac9df2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:29 +0000
Subject: [PATCH 27/84] fix: do not use the short name of a class when it
 refers to a different class

The serialized name of a class would be deserialized to a class with
the same name in a known module (e.g., soil.Environment).
---
 soil/serialization.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/soil/serialization.py b/soil/serialization.py
index 6b70554..5623ef6 100644
--- a/soil/serialization.py
+++ b/soil/serialization.py
@@ -169,17 +169,17 @@ def name(value, known_modules=KNOWN_MODULES):
     if not isinstance(value, type):  # Get the class name first
         value = type(value)
     tname = value.__name__
-    if hasattr(builtins(), tname):
+    if getattr(builtins(), tname, None) is value:
         return tname
     modname = value.__module__
     if modname == "__main__":
         return tname
-    if known_modules and modname in known_modules:
-        return tname
-    for kmod in known_modules:
+    for kmod in known_modules or []:
         module = get_module(kmod)
         if hasattr(module, tname):
-            return tname
+            if getattr(module, tname) is value:
+                return tname
+            break  # The short name refers to a different class
     return "{}.{}".format(modname, tname)
 
 
-- 
2.43.0


From 392733b7ee98afed6e20f569f6cad31d68bc8138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:29 +0000
Subject: [PATCH 28/84] fix: keep the values in the lists of a configuration
 when it is serialized

Numbers in a list were converted to strings, empty lists were converted to
dictionaries and lists of pairs were converted to dictionaries.
---
 soil/serialization.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/soil/serialization.py b/soil/serialization.py
index 5623ef6..07b62a6 100644
--- a/soil/serialization.py
+++ b/soil/serialization.py
@@ -197,18 +197,13 @@ def serialize(v, known_modules=KNOWN_MODULES):
 
 
 def serialize_dict(d, known_modules=KNOWN_MODULES):
-    try:
-        d = dict(d)
-    except (ValueError, TypeError) as ex:
-        return serialize(d)[0]
-    for (k, v) in reversed(list(d.items())):
-        if isinstance(v, dict):
-            d[k] = serialize_dict(v, known_modules=known_modules)
-        elif isinstance(v, list):
-            for ix in range(len(v)):
-                v[ix] = serialize_dict(v[ix], known_modules=known_modules)
-        elif isinstance(v, type):
-            d[k] = serialize(v, known_modules=known_modules)[1]
+    """Replace every class in a dictionary (or a list of them) with its name"""
+    if isinstance(d, dict):
+        return {k: serialize_dict(v, known_modules=known_modules) for (k, v) in d.items()}
+    if isinstance(d, list):
+        return [serialize_dict(v, known_modules=known_modules) for v in d]
+    if isinstance(d, type):
+        return serialize(d, known_modules=known_modules)[1]
     return d
 
 
-- 
2.43.0


From 67c23681bb1a5c3368972080728f177e6e8a4f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:33 +0000
Subject: [PATCH 29/84] fix: keep the limits of a simulation unless they are
 given in the command line

---
 soil/__init__.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/soil/__init__.py b/soil/__init__.py
index a4ce59d..8a1f1ac 100644
--- a/soil/__init__.py
+++ b/soil/__init__.py
@@ -249,9 +249,12 @@ def main(
             if args.only_convert:
                 print(sim.to_yaml())
                 continue
-            max_time = float(args.max_time) if args.max_time != "-1" else None
-            max_steps = float(args.max_steps) if args.max_steps != "-1" else None
-            res.append(sim.run(max_time=max_time, max_steps=max_steps))
+            limits = {}
+            if args.max_time != "-1":
+                limits["max_time"] = float(args.max_time)
+            if args.max_steps != "-1":
+                limits["max_steps"] = float(args.max_steps)
+            res.append(sim.run(**limits))
 
     except Exception as ex:
         if args.pdb:
-- 
2.43.0


From bc4c8180217be7d25f53ab4d7079b844b794ba06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:33 +0000
Subject: [PATCH 30/84] fix: use the output folder given in the command line

---
 soil/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/soil/__init__.py b/soil/__init__.py
index 8a1f1ac..c13d51a 100644
--- a/soil/__init__.py
+++ b/soil/__init__.py
@@ -180,8 +180,7 @@ def main(
         sys.path.append(os.getcwd())
     if args.module:
         importlib.import_module(args.module)
-    if output is None:
-        output = args.output
+    output = args.output
 
     debug = debug or args.debug
 
-- 
2.43.0


From e3779ed3cca5a303de5fb4025bf7996f3ed44de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:33 +0000
Subject: [PATCH 31/84] fix: run_from_file called a method that does not exist

---
 soil/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/simulation.py b/soil/simulation.py
index 0b79f6d..790e1d6 100644
--- a/soil/simulation.py
+++ b/soil/simulation.py
@@ -362,7 +362,7 @@ def from_py(pyfile):
 def run_from_file(*files, **kwargs):
     for sim in iter_from_file(*files):
         logger.info(f"Using config(s): {sim.name}")
-        sim.run_simulation(**kwargs)
+        sim.run(**kwargs)
 
 def run(env, iterations=1, num_processes=1, dump=False, name="test", **kwargs):
     return Simulation(model=env, iterations=iterations, name=name, dump=dump, num_processes=num_processes, **kwargs).run()
\ No newline at end of file
-- 
2.43.0


From f469660c805586355620d100b491994e9af37289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:33 +0000
Subject: [PATCH 32/84] fix: do not leave anything behind when a simulation
 file fails to load

The simulations that were queued by a file with errors would be considered part of the next file, and
the module and its folder could still be imported.
---
 soil/simulation.py | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/soil/simulation.py b/soil/simulation.py
index 790e1d6..c7ec3e1 100644
--- a/soil/simulation.py
+++ b/soil/simulation.py
@@ -330,27 +330,31 @@ def iter_from_py(pyfile, module_name='imported_file', **kwargs):
         if folder not in sys.path:
             added = True
             sys.path.append(folder)
-        if not spec:
-            raise ValueError(f"{pyfile} does not seem to be a Python module")
-        module = importlib.util.module_from_spec(spec)
-        sys.modules[module_name] = module
-        spec.loader.exec_module(module)
-        for (_name, sim) in inspect.getmembers(module, lambda x: isinstance(x, Simulation)):
-            sims.append(sim)
-        for sim in _iter_queued():
-            sims.append(sim)
-        if not sims:
-            for (_name, env) in inspect.getmembers(module,
-                                                   lambda x: inspect.isclass(x) and
-                                                   issubclass(x, environment.Environment) and
-                                                   (getattr(x, "__module__", None) != environment.__name__)):
-                sims.append(Simulation(model=env, **kwargs))
-        del sys.modules[module_name]
+        try:
+            if not spec:
+                raise ValueError(f"{pyfile} does not seem to be a Python module")
+            module = importlib.util.module_from_spec(spec)
+            sys.modules[module_name] = module
+            spec.loader.exec_module(module)
+            for (_name, sim) in inspect.getmembers(module, lambda x: isinstance(x, Simulation)):
+                sims.append(sim)
+            for sim in _iter_queued():
+                sims.append(sim)
+            if not sims:
+                for (_name, env) in inspect.getmembers(module,
+                                                       lambda x: inspect.isclass(x) and
+                                                       issubclass(x, environment.Environment) and
+                                                       (getattr(x, "__module__", None) != environment.__name__)):
+                    sims.append(Simulation(model=env, **kwargs))
+        finally:
+            # Leave nothing behind if the file cannot be loaded
+            _QUEUED.clear()
+            sys.modules.pop(module_name, None)
+            if added:
+                sys.path.remove(folder)
     assert not _AVOID_RUNNING
     if not sims:
         raise AttributeError(f"No valid configurations found in {pyfile}")
-    if added:
-        sys.path.remove(folder)
     for sim in sims:
         yield replace(sim, **kwargs)
 
-- 
2.43.0


From 429f238678e86fe74686ddbe9f05bad5f24217dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:33 +0000
Subject: [PATCH 33/84] fix: accept the name of a class as the agent_class of
 an environment

Configurations are dumped with the name of each class (see Simulation.to_yaml),
so they could not be run when loaded again.
---
 soil/environment.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/soil/environment.py b/soil/environment.py
index c83d9db..a9427a6 100644
--- a/soil/environment.py
+++ b/soil/environment.py
@@ -397,10 +397,9 @@ class NetworkEnvironment(BaseEnvironment):
         return self.G.nodes[node_id].get("agent")
 
     def populate_network(self, agent_class: List[Model], weights: List[float] = None, **agent_params):
-        if isinstance(agent_class, type):
+        if isinstance(agent_class, (type, str)):
             agent_class = [agent_class]
-        else:
-            agent_class = list(agent_class)
+        agent_class = [agentmod._deserialize_type(cls) for cls in agent_class]
         if not weights:
             weights = [1] * len(agent_class)
         assert len(self.G)
-- 
2.43.0


From 132f14f4267b0649239195f18ec1d59a940117e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:09 +0000
Subject: [PATCH 34/84] fix: discontent agents were never contagious in
 SISaModel

Discontent neighbors were compared to a state instead of its id, the transition from content to discontent
was missing a return, and content_neutral was ignored.
---
 soil/agents/SISaModel.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/soil/agents/SISaModel.py b/soil/agents/SISaModel.py
index b5dbbe3..f6cf475 100644
--- a/soil/agents/SISaModel.py
+++ b/soil/agents/SISaModel.py
@@ -64,7 +64,7 @@ class SISaModel(Agent):
             self.model.content_discontent, self.model.variance_c_d
         )
         self.content_neutral = random.normal(
-            self.model.discontent_neutral, self.model.standard_variance
+            self.model.content_neutral, self.model.standard_variance
         )
 
     @default_state
@@ -77,7 +77,7 @@ class SISaModel(Agent):
             return self.content
 
         # Infected
-        discontent_neighbors = self.count_neighbors(state_id=self.discontent)
+        discontent_neighbors = self.count_neighbors(state_id=self.discontent.id)
         if self.prob(discontent_neighbors * self.neutral_discontent_infected_prob):
             return self.discontent
         content_neighbors = self.count_neighbors(state_id=self.content.id)
@@ -106,5 +106,5 @@ class SISaModel(Agent):
         # Superinfected
         discontent_neighbors = self.count_neighbors(state_id=self.discontent.id)
         if self.prob(discontent_neighbors * self.content_discontent):
-            self.discontent
+            return self.discontent
         return self.content
-- 
2.43.0


From 5923265be736e47320588b344b4cee0f3ef8ed4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:43 +0000
Subject: [PATCH 35/84] fix: agent dataframes when there is no agent data

The dataframe of an environment in which no agent was alive when the data
was collected has no index levels, and neither agent_df nor the exporters
could handle it.
---
 soil/datacollection.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/soil/datacollection.py b/soil/datacollection.py
index aa40e63..9780bc8 100644
--- a/soil/datacollection.py
+++ b/soil/datacollection.py
@@ -1,3 +1,5 @@
+import pandas as pd
+
 from mesa import DataCollector as MDC
 
 
@@ -17,3 +19,10 @@ class SoilCollector(MDC):
                          agent_reporters=agent_reporters,
                          tables=tables,
                          **kwargs)
+
+    def get_agent_vars_dataframe(self):
+        df = super().get_agent_vars_dataframe()
+        if not isinstance(df.index, pd.MultiIndex):  # There were no agents to report
+            df = pd.DataFrame(columns=list(self.agent_reporters),
+                              index=pd.MultiIndex.from_arrays([[], []], names=["Step", "AgentID"]))
+        return df
-- 
2.43.0


From 7bc1e376bb5821ca2e457e8d93a0f21e26347a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:26 +0000
Subject: [PATCH 36/84] fix: the attributes of a topology given as a dictionary
 were shared

networkx uses the dictionary of graph attributes as it is, so every environment
with that topology (and the configuration of the user) had the same one.
---
 soil/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/network.py b/soil/network.py
index 2855af6..3b20b53 100644
--- a/soil/network.py
+++ b/soil/network.py
@@ -20,7 +20,7 @@ def from_topology(topology, dir_path: str = None):
     # If it's a dict, assume it's a node-link graph
     if isinstance(topology, dict):
         try:
-            return nx.json_graph.node_link_graph(topology)
+            return nx.json_graph.node_link_graph(topology).copy()
         except Exception as ex:
             raise ValueError("Unknown topology format")
     
-- 
2.43.0


From 954d0b4f8c5659b486bdf8c32be563c77ab24392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:05 +0000
Subject: [PATCH 37/84] fix: the summary exporter failed with columns of text
 and numbers

The counts of the values of all the columns were aligned (and sorted) in a
single index, which fails with values of different types.
---
 soil/exporters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/exporters.py b/soil/exporters.py
index bb21863..58c73a6 100644
--- a/soil/exporters.py
+++ b/soil/exporters.py
@@ -240,7 +240,7 @@ class summary(Exporter):
             description = indent(str(df.describe()), tabs)
             last_line = indent(str(df.iloc[-1:]), tabs)
             # value_counts = indent(str(df.value_counts()), tabs)
-            value_counts = indent(str(df.apply(lambda x: x.value_counts()).T.stack()), tabs)
+            value_counts = indent(str(pd.concat({c: df[c].value_counts() for c in df})), tabs)
 
             msg += dedent("""
             Dataframe {t}:
-- 
2.43.0


From 9bf91358ff8d609df3e6b898cacbe0722dcdc68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:14 +0000
Subject: [PATCH 38/84] fix: the graphdrawing exporter always failed

It tried to read the image that it should write, and used the file instead of
the figure. The image is now written to the output folder of the simulation,
unless it is run without dump.
---
 soil/exporters.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/soil/exporters.py b/soil/exporters.py
index 58c73a6..d28ff43 100644
--- a/soil/exporters.py
+++ b/soil/exporters.py
@@ -214,18 +214,23 @@ class dummy(Exporter):
 
 class graphdrawing(Exporter):
     def iteration_end(self, env, *args, **kwargs):
+        if not self.dump:
+            logger.info("Not drawing the network (NO_DUMP mode)")
+            return
+
         import matplotlib.pyplot as plt
         # Outside effects
-        f = plt.figure()
+        fig = plt.figure()
         nx.draw(
             env.G,
             node_size=10,
             width=0.2,
             pos=nx.spring_layout(env.G, scale=100),
-            ax=f.add_subplot(111),
+            ax=fig.add_subplot(111),
         )
-        with open("graph-{}.png".format(env.id)) as f:
-            f.savefig(f)
+        with self.output("graph-{}.png".format(env.id), mode="wb") as f:
+            fig.savefig(f, format="png")
+        plt.close(fig)
 
 
 class summary(Exporter):
-- 
2.43.0


From 22b0ea956edbd8929e0c76473f916556b6155fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:19 +0000
Subject: [PATCH 39/84] fix: do not expand the matrix of a queued simulation
 again

Each configuration of a simulation that is run when its file is loaded is
queued on its own. They kept the matrix, so each of them was run with all the
configurations of the matrix, in addition to its own.
---
 soil/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/simulation.py b/soil/simulation.py
index c7ec3e1..fcc1d75 100644
--- a/soil/simulation.py
+++ b/soil/simulation.py
@@ -45,7 +45,7 @@ def do_not_run():
 def _iter_queued():
     while _QUEUED:
         (cls, params) = _QUEUED.pop(0)
-        yield replace(cls, parameters=params)
+        yield replace(cls, parameters=params, matrix={})
 
 
 # TODO: change documentation for simulation
-- 
2.43.0


From baf9727847b4a7d854b0209769e82f448ea71a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:19 +0000
Subject: [PATCH 40/84] fix: use each exporter only once in main

With -e csv --csv, for instance, every row was written twice. The list of
exporters given to main is not modified anymore.
---
 soil/__init__.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/soil/__init__.py b/soil/__init__.py
index c13d51a..407f9e7 100644
--- a/soil/__init__.py
+++ b/soil/__init__.py
@@ -165,16 +165,17 @@ def main(
     if args.version:
         return
 
-    exporters = exporters or [
+    exporters = list(exporters or [
         "default",
-    ]
-    for exp in args.exporter:
-        if exp not in exporters:
-            exporters.append(exp)
+    ])
+    requested = list(args.exporter)
     if args.csv:
-        exporters.append("csv")
+        requested.append("csv")
     if args.graph:
-        exporters.append("gexf")
+        requested.append("gexf")
+    for exp in requested:
+        if exp not in exporters:
+            exporters.append(exp)
 
     if os.getcwd() not in sys.path:
         sys.path.append(os.getcwd())
-- 
2.43.0


From 1ae2e6a7019c199efd6e764c8cc5a71f5d17a28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:27 +0000
Subject: [PATCH 41/84] fix: easy returns the results of the simulation

It was decorated as a context manager, but it is not a generator: the value it
returned was useless, and it could not be used in a with statement either.
---
 soil/__init__.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/soil/__init__.py b/soil/__init__.py
index 407f9e7..cdf5117 100644
--- a/soil/__init__.py
+++ b/soil/__init__.py
@@ -6,7 +6,6 @@ import sys
 import os
 import logging
 import traceback
-from contextlib import contextmanager
 
 from .version import __version__
 
@@ -272,7 +271,6 @@ def main(
     return res
 
 
-@contextmanager
 def easy(cfg, pdb=False, debug=False, **kwargs):
     try:
         return main(cfg, debug=debug, pdb=pdb, **kwargs)[0]
-- 
2.43.0


From 871f3c9c9a8f7c15eb8cdb18943e73ed87250f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:30 +0000
Subject: [PATCH 42/84] fix: write the full name of the classes in modules that
 are not known

Every module that had been imported to find a class was added to the list of
known modules. Hence, the short name of its classes was used in the
configuration of a simulation, which could not be loaded in another process.
---
 soil/serialization.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/soil/serialization.py b/soil/serialization.py
index 07b62a6..5ca8031 100644
--- a/soil/serialization.py
+++ b/soil/serialization.py
@@ -155,11 +155,13 @@ def with_source(file=None):
             _remove_source_file(file)
 
 def get_module(modname):
-    """Get a module from the list of known modules"""
-    if modname not in KNOWN_MODULES or KNOWN_MODULES[modname] is None:
+    """Get a module, either from the list of known modules or by importing it"""
+    module = KNOWN_MODULES.get(modname)
+    if module is None:
         module = importlib.import_module(modname)
-        KNOWN_MODULES[modname] = module
-    return KNOWN_MODULES[modname]
+        if modname in KNOWN_MODULES:
+            KNOWN_MODULES[modname] = module
+    return module
 
 
 def name(value, known_modules=KNOWN_MODULES):
-- 
2.43.0


From 5c27b88e9e2eb2e22b326df43ba54efd2990da29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:00 +0000
Subject: [PATCH 43/84] fix: accept the generator and the seed of the network
 in network_params

Both of them caused a TypeError (multiple values for an argument).
---
 soil/environment.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/soil/environment.py b/soil/environment.py
index a9427a6..5fd6587 100644
--- a/soil/environment.py
+++ b/soil/environment.py
@@ -280,7 +280,7 @@ class NetworkEnvironment(BaseEnvironment):
         self.network_generator = network_generator
         self.network_params = network_params
         if topology or network_params or network_generator:
-            self.create_network(topology, generator=network_generator, **network_params)
+            self.create_network(topology, **dict({"generator": network_generator}, **network_params))
         else:
             self.G = nx.Graph()
         super().__init__(*args, **kwargs, init=False)
@@ -315,10 +315,10 @@ class NetworkEnvironment(BaseEnvironment):
         elif path is not None:
             topology = network.from_topology(path, dir_path=self.dir_path)
         elif generator is not None:
-            params = dict(generator=generator,
-                                           dir_path=self.dir_path,
-                                           seed=self.random,
-                                           **network_params)
+            params = dict({"seed": self.random},
+                          generator=generator,
+                          dir_path=self.dir_path,
+                          **network_params)
             try:
                 topology = network.from_params(**params)
             except TypeError:
-- 
2.43.0


From c55eb3889e985cf3abeaac84b2ebc8ff91880b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:00 +0000
Subject: [PATCH 44/84] fix: log messages of agents with keyword arguments

They raised an exception, unless the level was disabled.
---
 soil/agents/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soil/agents/__init__.py b/soil/agents/__init__.py
index f96d590..cb9201d 100644
--- a/soil/agents/__init__.py
+++ b/soil/agents/__init__.py
@@ -256,8 +256,8 @@ class BaseAgent(MesaAgent, MutableMapping, metaclass=MetaAgent):
             return
         message = " ".join(str(i) for i in message)
         message = "[@{:>4}]\t{:>10}: {}".format(self.now, repr(self), message)
-        for k, v in kwargs:
-            message += " {k}={v} ".format(k, v)
+        for k, v in kwargs.items():
+            message += f" {k}={v} "
         extra = {}
         extra["now"] = self.now
         extra["unique_id"] = self.unique_id
-- 
2.43.0


From 425d4bce9d7f5ae44afe9918c3fbd3589a6bed51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:00 +0000
Subject: [PATCH 45/84] fix: log messages of environments with keyword
 arguments

They raised an exception, unless the level was disabled.
---
 soil/environment.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soil/environment.py b/soil/environment.py
index 5fd6587..bf96b70 100644
--- a/soil/environment.py
+++ b/soil/environment.py
@@ -185,8 +185,8 @@ class BaseEnvironment(Model):
             return
         message = message + " ".join(str(i) for i in args)
         message = " @{:>3}: {}".format(self.now, message)
-        for k, v in kwargs:
-            message += " {k}={v} ".format(k, v)
+        for k, v in kwargs.items():
+            message += f" {k}={v} "
         extra = {}
         extra["now"] = self.now
         extra["id"] = self.id
-- 
2.43.0


From 609e6f036cc852cd6369a813e08bc29b68941c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:00 +0000
Subject: [PATCH 46/84] fix: BaseAgent.from_dict failed when there were extra
 attributes

---
 soil/agents/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/agents/__init__.py b/soil/agents/__init__.py
index cb9201d..4bcba71 100644
--- a/soil/agents/__init__.py
+++ b/soil/agents/__init__.py
@@ -180,7 +180,7 @@ class BaseAgent(MesaAgent, MutableMapping, metaclass=MetaAgent):
                 ignored[k] = v
         if ignored and warn_extra:
             utils.logger.info(
-                f"Ignoring the following arguments for agent class { agent_class.__name__ }: { ignored }"
+                f"Ignoring the following arguments for agent class { cls.__name__ }: { ignored }"
             )
         return cls(model=model, **args)
 
-- 
2.43.0


From 91dc416e1193d00184dda59e46d28605ca8d71f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:00 +0000
Subject: [PATCH 47/84] fix: use the method resolution order in the defaults of
 agents

In a class with several bases, the value that a base class redefines could be
replaced with the original one, inherited through another base.
---
 soil/agents/__init__.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/soil/agents/__init__.py b/soil/agents/__init__.py
index 4bcba71..26b845a 100644
--- a/soil/agents/__init__.py
+++ b/soil/agents/__init__.py
@@ -61,13 +61,8 @@ class MetaAgent(ABCMeta):
     def __new__(mcls, name, bases, namespace):
         defaults = {}
 
-        # Re-use defaults from inherited classes
-        for i in bases:
-            if isinstance(i, MetaAgent):
-                defaults.update(i._defaults)
-
         new_nmspc = {
-            "_defaults": defaults,
+            "_own_defaults": defaults,
         }
 
         for attr, func in namespace.items():
@@ -102,7 +97,13 @@ class MetaAgent(ABCMeta):
 
 
         # Add attributes for their use in the decorated functions
-        return super().__new__(mcls, name, bases, new_nmspc)
+        cls = super().__new__(mcls, name, bases, new_nmspc)
+
+        # Re-use defaults from inherited classes, in the usual order
+        cls._defaults = {}
+        for base in reversed(cls.__mro__):
+            cls._defaults.update(base.__dict__.get("_own_defaults", {}))
+        return cls
 
 
 class BaseAgent(MesaAgent, MutableMapping, metaclass=MetaAgent):
-- 
2.43.0


From e216885ff21ad5549285fd7067485f6259c2ac83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:00 +0000
Subject: [PATCH 48/84] fix: iterate over the keys of an agent, like in any
 other mapping

The iterator returned pairs, so values(), popitem() and clear() failed.
---
 soil/agents/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/agents/__init__.py b/soil/agents/__init__.py
index 26b845a..dbb78ff 100644
--- a/soil/agents/__init__.py
+++ b/soil/agents/__init__.py
@@ -204,7 +204,7 @@ class BaseAgent(MesaAgent, MutableMapping, metaclass=MetaAgent):
         return sum(1 for n in self.keys())
 
     def __iter__(self):
-        return self.items()
+        return self.keys()
 
     def keys(self):
         return (k for k in self.__dict__ if k[0] != "_" and k not in IGNORED_FIELDS)
-- 
2.43.0


From 2de487e6f7e43cc1b8b044b72b017750b87dae16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:00 +0000
Subject: [PATCH 49/84] fix: assign the agents of a topology that has the
 agent_id of its nodes

A list of agents was used instead of the agent, which always failed.
---
 soil/environment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/environment.py b/soil/environment.py
index bf96b70..f0c61dc 100644
--- a/soil/environment.py
+++ b/soil/environment.py
@@ -372,7 +372,7 @@ class NetworkEnvironment(BaseEnvironment):
         """
         for (id, data) in self.G.nodes(data=True):
             if "agent_id" in data:
-                agent = self.get_agents(data["agent_id"])
+                agent = self.agent(data["agent_id"])
                 self.G.nodes[id]["agent"] = agent
                 assert not getattr(agent, "node_id", None) or agent.node_id == id
                 agent.node_id = id
-- 
2.43.0


From d88c7249159c319782f6f7ad0d43a6f163884d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:19 +0000
Subject: [PATCH 50/84] fix: keep an empty topology, which may be directed

---
 soil/environment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/environment.py b/soil/environment.py
index f0c61dc..a1556de 100644
--- a/soil/environment.py
+++ b/soil/environment.py
@@ -279,7 +279,7 @@ class NetworkEnvironment(BaseEnvironment):
         self.topology = topology
         self.network_generator = network_generator
         self.network_params = network_params
-        if topology or network_params or network_generator:
+        if topology is not None or network_params or network_generator:
             self.create_network(topology, **dict({"generator": network_generator}, **network_params))
         else:
             self.G = nx.Graph()
-- 
2.43.0


From 3deabdc5a49db7a01e7f33e7749253c60dec71eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:12 +0000
Subject: [PATCH 51/84] fix: make the Bass model work: it called a method that
 does not exist, and had no neighbors

---
 soil/agents/BassModel.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/soil/agents/BassModel.py b/soil/agents/BassModel.py
index 6049bd5..85b2711 100644
--- a/soil/agents/BassModel.py
+++ b/soil/agents/BassModel.py
@@ -1,7 +1,7 @@
-from . import FSM, state, default_state
+from . import Agent, state, default_state
 
 
-class BassModel(FSM):
+class BassModel(Agent):
     """
     Settings:
         innovation_prob
@@ -10,9 +10,6 @@ class BassModel(FSM):
 
     sentimentCorrelation = 0
 
-    def step(self):
-        self.behaviour()
-
     @default_state
     @state
     def innovation(self):
-- 
2.43.0


From da31bd86816de0b81c038938b36afd622f0d3fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:02 +0000
Subject: [PATCH 52/84] fix: a wait for messages with a deadline of 0 waited
 for 60 units of time

---
 soil/agents/evented.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/agents/evented.py b/soil/agents/evented.py
index 667b815..0f28a64 100644
--- a/soil/agents/evented.py
+++ b/soil/agents/evented.py
@@ -16,7 +16,7 @@ class EventedAgent(BaseAgent):
 
     @coroutine
     def received(self, expiration=None, timeout=60, delay=1, process=True):
-        if not expiration:
+        if expiration is None:
             expiration = self.now + timeout
         while self.now < expiration:
             if self._inbox:
-- 
2.43.0


From 8bc129e126b7725b8d7545d05a6aa8a3f0d24ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:46 +0000
Subject: [PATCH 53/84] fix: model parameters with the names of the arguments
 of run_parallel (e.g. num_processes) did not reach the model

---
 soil/simulation.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/soil/simulation.py b/soil/simulation.py
index fcc1d75..99d8237 100644
--- a/soil/simulation.py
+++ b/soil/simulation.py
@@ -203,9 +203,8 @@ class Simulation:
                     func = self._run_model
 
                 for env in tqdm(utils.run_parallel(
-                    func=func,
+                    func=partial(func, **params),
                     iterable=range(self.iterations),
-                    **params,
                 ), total=self.iterations, leave=False):
                     if env is None and self.dry_run:
                         continue
-- 
2.43.0


From 6b1f6f010eb7d2adce2bc3e69b91fead98bd8be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:25 +0000
Subject: [PATCH 54/84] fix: a simulation that its file binds to a name and
 also runs (or binds to two names) was loaded twice

---
 soil/simulation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/soil/simulation.py b/soil/simulation.py
index 99d8237..a1c3a71 100644
--- a/soil/simulation.py
+++ b/soil/simulation.py
@@ -336,7 +336,10 @@ def iter_from_py(pyfile, module_name='imported_file', **kwargs):
             sys.modules[module_name] = module
             spec.loader.exec_module(module)
             for (_name, sim) in inspect.getmembers(module, lambda x: isinstance(x, Simulation)):
-                sims.append(sim)
+                if not any(sim is other for other in sims):
+                    sims.append(sim)
+            # The simulations that have a name have already been included
+            _QUEUED[:] = [q for q in _QUEUED if not any(q[0] is sim for sim in sims)]
             for sim in _iter_queued():
                 sims.append(sim)
             if not sims:
-- 
2.43.0


From 10adcfd6e4f52f4c4357e2748dd23665d48ed69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:18 +0000
Subject: [PATCH 55/84] fix: agents of different environments with the same
 attributes were considered equal

---
 soil/agents/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/soil/agents/__init__.py b/soil/agents/__init__.py
index dbb78ff..ca5507f 100644
--- a/soil/agents/__init__.py
+++ b/soil/agents/__init__.py
@@ -155,6 +155,9 @@ class BaseAgent(MesaAgent, MutableMapping, metaclass=MetaAgent):
     def __hash__(self):
         return hash(self.unique_id)
 
+    def __eq__(self, other):
+        return self is other
+
     def prob(self, probability):
         return prob(probability, self.model.random)
 
-- 
2.43.0


From 38837ccf87d8531599f044c32f9d8749a939621c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:18 +0000
Subject: [PATCH 56/84] fix: the agents that had died were still in the agents
 attribute of their environment

---
 soil/agents/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/soil/agents/__init__.py b/soil/agents/__init__.py
index ca5507f..76a229c 100644
--- a/soil/agents/__init__.py
+++ b/soil/agents/__init__.py
@@ -246,6 +246,9 @@ class BaseAgent(MesaAgent, MutableMapping, metaclass=MetaAgent):
             self.model.schedule.remove(self)
         except KeyError:
             pass
+        # The model also keeps its own record of agents (see Model.agents)
+        if hasattr(MesaAgent, "remove"):
+            MesaAgent.remove(self)
         return time.Delay(time.INFINITY)
 
     def step(self):
-- 
2.43.0


From 70c6e5422fbca6e281d317353a2f84810365e204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:18 +0000
Subject: [PATCH 57/84] fix: agents that had been removed from the schedule
 were still activated, and adding an agent twice (which is an error) scheduled
 it twice

---
 soil/time.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/soil/time.py b/soil/time.py
index 786e804..be8921c 100644
--- a/soil/time.py
+++ b/soil/time.py
@@ -39,6 +39,10 @@ class DiscreteActivation(BaseScheduler):
         if hasattr(self.model, 'default_interval'):
             self.default_interval = self.model.default_interval
 
+    def _is_active(self, agent):
+        '''Whether an agent is still in the schedule'''
+        return agent in self._agents and getattr(agent, "alive", True)
+
     def _next_activation(self, agent, now):
         '''Activate an agent, and return the time of its next activation.'''
         delay = agent.step()
@@ -68,8 +72,8 @@ class PQueueActivation(DiscreteActivation):
         else:
             when = max(float(when), self.time)
 
-        self._schedule(agent, when)
         super().add(agent)
+        self._schedule(agent, when)
 
     def _schedule(self, agent, when=None, replace=False):
         if when is None:
@@ -106,7 +110,7 @@ class PQueueActivation(DiscreteActivation):
             # entry has to be removed before the agent is activated
             heappop(self._queue)
 
-            if not getattr(agent, "alive", True):
+            if not self._is_active(agent):
                 continue
 
             try:
@@ -114,7 +118,7 @@ class PQueueActivation(DiscreteActivation):
             except DeadAgent:
                 continue
 
-            if when == INFINITY or not getattr(agent, "alive", True):
+            if when == INFINITY or not self._is_active(agent):
                 continue
 
             self._schedule(agent, when)
@@ -143,8 +147,8 @@ class TimedActivation(DiscreteActivation):
             when = self.time
         else:
             when = max(float(when), self.time)
-        self._schedule(agent, when)
         super().add(agent)
+        self._schedule(agent, when)
 
     def _schedule(self, agent, when=None, replace=False):
         when = when or self.time
@@ -179,7 +183,7 @@ class TimedActivation(DiscreteActivation):
         if self._shuffle:
             self.model.random.shuffle(bucket)
         for agent in bucket:
-            if not getattr(agent, "alive", True):
+            if not self._is_active(agent):
                 continue
 
             try:
@@ -187,7 +191,7 @@ class TimedActivation(DiscreteActivation):
             except DeadAgent:
                 continue
 
-            if when != INFINITY and getattr(agent, "alive", True):
+            if when != INFINITY and self._is_active(agent):
                 self._schedule(agent, when, replace=True)
 
         self.steps += 1
-- 
2.43.0


From 3bb725e1d280eb8a31c6d3e0cbd6e6989905e7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:56 +0000
Subject: [PATCH 58/84] fix: expanding a template removed the sampling method
 from its configuration

---
 soil/serialization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/serialization.py b/soil/serialization.py
index 5ca8031..4c8eb12 100644
--- a/soil/serialization.py
+++ b/soil/serialization.py
@@ -65,7 +65,7 @@ def expand_template(config):
 
 
 def params_for_template(config):
-    sampler_config = config.get("sampler", {"N": 100})
+    sampler_config = dict(config.get("sampler", {"N": 100}))
     sampler = sampler_config.pop("method", "SALib.sample.morris.sample")
     sampler = deserializer(sampler)
     bounds = config["vars"]["bounds"]
-- 
2.43.0


From f3374ca49aede6478e7051ae137c998e68bce659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:56 +0000
Subject: [PATCH 59/84] fix: adding an agent to the topology without giving its
 node failed, after scheduling the agent

---
 soil/environment.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soil/environment.py b/soil/environment.py
index a1556de..3787fac 100644
--- a/soil/environment.py
+++ b/soil/environment.py
@@ -301,7 +301,8 @@ class NetworkEnvironment(BaseEnvironment):
         except TypeError:
             self.logger.warning(f"Agent constructor for {agent_class} does not have a node_id attribute. Might be a bug.")
             a = super().add_agent(agent_class, *args, **kwargs)
-        self.G.nodes[node_id]["agent"] = a
+        if node_id is not None:
+            self.G.nodes[node_id]["agent"] = a
         return a
 
     def add_agents(self, *args, k=None, **kwargs):
-- 
2.43.0


From 0bdc36d6d01ecf770f37d3577d51b2e00e36010c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:11 +0000
Subject: [PATCH 60/84] fix: the commands to show agents in the debugger
 replaced its own variables with those of the program, failed outside of an
 agent, and stopped inside of the debugger in a post mortem

---
 soil/debugging.py | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/soil/debugging.py b/soil/debugging.py
index 97dc8cc..6386cf9 100644
--- a/soil/debugging.py
+++ b/soil/debugging.py
@@ -14,23 +14,10 @@ from mesa import Model, Agent
 def wrapcmd(func):
     @wraps(func)
     def wrapper(self, arg: str, temporary=False):
-        sys.settrace(self.trace_dispatch)
-
-        lastself = self
-        known = globals()
-        known.update(self.curframe.f_globals)
-        known.update(self.curframe.f_locals)
+        known = self._known()
         known["attrs"] = arg.strip().split()
-
-        this = known.get("self", None)
-
-        if isinstance(this, Model):
-            known["model"] = this
-        elif isinstance(this, Agent):
-            known["agent"] = this
-            known["model"] = this.model
-
-        known["self"] = lastself
+        known["self"] = self
+        known["Debug"] = Debug
         return exec(func.__code__, known, known)
 
     return wrapper
@@ -47,8 +34,27 @@ class Debug(pdb.Pdb):
         super(Debug, self).__init__(*args, skip=skip, **kwargs)
         self.prompt = "[soil-pdb] "
 
+    def _known(self):
+        """Variables in the current frame, with the agent and the model that they belong to (if any)"""
+        known = dict(self.curframe.f_globals)
+        known.update(self.curframe.f_locals)
+        known.setdefault("agent", None)
+        known.setdefault("model", None)
+
+        this = known.get("self", None)
+
+        if isinstance(this, Model):
+            known["model"] = this
+        elif isinstance(this, Agent):
+            known["agent"] = this
+            known["model"] = this.model
+        return known
+
     @staticmethod
     def _soil_agents(model, attrs=None, pretty=True, **kwargs):
+        if model is None:
+            print("No model available")
+            return
         for agent in model.get_agents(**kwargs):
             d = agent
             print(" - " + indent(agent.to_str(keys=attrs, pretty=pretty), "  "))
@@ -74,7 +80,7 @@ class Debug(pdb.Pdb):
 
     @wrapcmd
     def do_soil_agent():
-        if not agent:
+        if agent is None:
             print("No agent available")
             return
 
-- 
2.43.0


From ea5a134adf078dc3f736eef3ede225859b813aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:11 +0000
Subject: [PATCH 61/84] fix: breaking before the next step failed when there
 was no variable for the model, and skipped the first step

---
 soil/debugging.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/soil/debugging.py b/soil/debugging.py
index 6386cf9..d742651 100644
--- a/soil/debugging.py
+++ b/soil/debugging.py
@@ -101,10 +101,7 @@ class Debug(pdb.Pdb):
         Break before the next step.
         """
         try:
-            known = globals()
-            known.update(self.curframe.f_globals)
-            known.update(self.curframe.f_locals)
-            func = getattr(known["model"], "step")
+            func = getattr(self._known()["model"], "step")
         except AttributeError as ex:
             self.error(f"The model does not have a step function: {ex}")
             return
@@ -128,8 +125,7 @@ class Debug(pdb.Pdb):
         if existing:
             self.message("Breakpoint already exists at %s:%d" % (filename, line))
             return
-        cond = f"self.schedule.steps > {model.schedule.steps}"
-        err = self.set_break(filename, line, True, cond, funcname)
+        err = self.set_break(filename, line, True, None, funcname)
         if err:
             self.error(err)
         else:
-- 
2.43.0


From 11e6326077fb322d3b969f920e86c59dcef84821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:40 +0000
Subject: [PATCH 62/84] fix: breaking at a state failed in the debugger: states
 are not functions, and the classes of the agents are not always in the
 current frame

---
 soil/debugging.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/soil/debugging.py b/soil/debugging.py
index d742651..b933ed0 100644
--- a/soil/debugging.py
+++ b/soil/debugging.py
@@ -8,6 +8,7 @@ from textwrap import indent
 from functools import wraps
 
 from .agents import FSM, MetaFSM
+from .agents.fsm import State
 from mesa import Model, Agent
 
 
@@ -150,21 +151,30 @@ class Debug(pdb.Pdb):
         if tokens:
             instances = list(eval(token) for token in tokens)
 
+        # The debugger may be anywhere, so the classes might not be in the current frame
+        known = self._known()
+        if isinstance(known["model"], Model):
+            for a in known["model"].schedule.agents:
+                known.setdefault(type(a).__name__, type(a))
+
         colon = state.find(":")
 
         if colon > 0:
             klass = state[:colon].rstrip()
             state = state[colon + 1 :].strip()
 
-            print(klass, state, tokens)
-            klass = eval(klass, self.curframe.f_globals, self.curframe_locals)
+            try:
+                klass = eval(klass, known)
+            except NameError as ex:
+                self.error(f"Class {klass} not found: {ex}")
+                return
 
         if klass:
             klasses = [klass]
         else:
             klasses = [
                 k
-                for k in self.curframe.f_globals.values()
+                for k in known.values()
                 if isinstance(k, type) and issubclass(k, FSM)
             ]
 
@@ -177,6 +187,8 @@ class Debug(pdb.Pdb):
             except AttributeError:
                 self.error(f"State {state} not found in class {klass}")
                 continue
+            if isinstance(func, State):
+                func = func.f
             if hasattr(func, "__func__"):
                 func = func.__func__
 
-- 
2.43.0


From ebee35f347efce9751a17ae3e06b0b693c4e4272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:40 +0000
Subject: [PATCH 63/84] fix: entering the debugger again stopped in the code of
 the debugger

---
 soil/debugging.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/soil/debugging.py b/soil/debugging.py
index b933ed0..91ba825 100644
--- a/soil/debugging.py
+++ b/soil/debugging.py
@@ -245,6 +245,7 @@ def set_trace(frame=None, **kwargs):
     if debugger is None:
         debugger = Debug(**kwargs)
     frame = frame or sys._getframe().f_back
+    sys.settrace(None)  # Otherwise, a debugger that is already active would stop in its own code
     debugger.set_trace(frame)
 
 
-- 
2.43.0


From 4865d9b2c61ca4a571ff246194bf2b7a365edf0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:25 +0000
Subject: [PATCH 64/84] fix: a breakpoint in a state that was suspended (a
 generator), or in the current step, stopped where it was resumed instead of
 where it starts

---
 soil/debugging.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/soil/debugging.py b/soil/debugging.py
index 91ba825..98e1ee6 100644
--- a/soil/debugging.py
+++ b/soil/debugging.py
@@ -24,6 +24,14 @@ def wrapcmd(func):
     return wrapper
 
 
+def first_line(code):
+    """
+    First line of the body of a function. By default, a breakpoint in a function is wherever the function
+    is first seen, which may be the middle of it (e.g., a generator that is resumed)
+    """
+    return min((l for (_, _, l) in code.co_lines() if l and l > code.co_firstlineno), default=None)
+
+
 class Debug(pdb.Pdb):
     def __init__(self, *args, skip_soil=False, **kwargs):
         skip = kwargs.get("skip", [])
@@ -131,6 +139,7 @@ class Debug(pdb.Pdb):
             self.error(err)
         else:
             bp = self.get_breaks(filename, line)[-1]
+            bp.func_first_executable_line = first_line(code)
             self.message("Breakpoint %d at %s:%d" % (bp.number, bp.file, bp.line))
             return self.do_continue("")
     
@@ -217,6 +226,7 @@ class Debug(pdb.Pdb):
                 self.error(err)
             else:
                 bp = self.get_breaks(filename, line)[-1]
+                bp.func_first_executable_line = first_line(code)
                 self.message("Breakpoint %d at %s:%d" % (bp.number, bp.file, bp.line))
 
     do_bs = do_break_state
-- 
2.43.0


From 5a3b3e00ce89ff34fe37edda7d44c92296754f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:56 +0000
Subject: [PATCH 65/84] fix: the network agents included None for the nodes
 whose agent had not been created yet, while the network was being populated

---
 soil/environment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/environment.py b/soil/environment.py
index 3787fac..f8edb85 100644
--- a/soil/environment.py
+++ b/soil/environment.py
@@ -339,7 +339,7 @@ class NetworkEnvironment(BaseEnvironment):
         for (id, data) in self.G.nodes(data=True):
             if "agent" in data:
                 agent = data["agent"]
-                if getattr(agent, "alive", True):
+                if agent is not None and getattr(agent, "alive", True):
                     yield agent
 
     def add_node(self, agent_class, unique_id=None, node_id=None, **kwargs):
-- 
2.43.0


From 4515664042a9100be01933d98109a8c16321cf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:56 +0000
Subject: [PATCH 66/84] fix: a lock-stepped scheduler without agents never
 ended its first step

---
 soil/time.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/soil/time.py b/soil/time.py
index be8921c..ffc0257 100644
--- a/soil/time.py
+++ b/soil/time.py
@@ -238,7 +238,10 @@ class Lockstepper:
         end_time = self.time + self.default_interval
         res = None
         while self.scheduler.time < end_time:
+            before = (self.scheduler.time, self.scheduler.steps)
             res = self.scheduler.step()
+            if (self.scheduler.time, self.scheduler.steps) == before:
+                break  # There are no agents, so the scheduler does not advance
         self.time = end_time
         self.steps += 1
         return res
-- 
2.43.0


From 9f8c738e3e7ccf305892dd9f26814c1706cba2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:54 +0000
Subject: [PATCH 67/84] fix: the order of the parameters and the matrix was
 lost in the YAML of a simulation

---
 soil/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/simulation.py b/soil/simulation.py
index a1c3a71..9395848 100644
--- a/soil/simulation.py
+++ b/soil/simulation.py
@@ -283,7 +283,7 @@ class Simulation:
         return serialization.serialize_dict(d)
 
     def to_yaml(self):
-        return yaml.dump(self.to_dict())
+        return yaml.dump(self.to_dict(), sort_keys=False)
 
 
 def iter_from_file(*files, **kwargs):
-- 
2.43.0


From e48ad950ec2d2b55ca2b51fe4824a027387c427f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:54 +0000
Subject: [PATCH 68/84] fix: filtering by an empty list of identifiers returned
 every agent

---
 soil/agents/__init__.py       | 2 +-
 soil/agents/network_agents.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/soil/agents/__init__.py b/soil/agents/__init__.py
index 76a229c..c28261f 100644
--- a/soil/agents/__init__.py
+++ b/soil/agents/__init__.py
@@ -465,7 +465,7 @@ def filter_agents(
     if id_args:
         ids += id_args
 
-    if ids:
+    if ids or unique_id is not None:
         f = (agent for agent in agents if agent.unique_id in ids)
     else:
         f = agents
diff --git a/soil/agents/network_agents.py b/soil/agents/network_agents.py
index fd2da07..9b31de0 100644
--- a/soil/agents/network_agents.py
+++ b/soil/agents/network_agents.py
@@ -53,7 +53,7 @@ class NetworkAgent(BaseAgent):
                 agent = self.G.nodes[node_id].get("agent")
                 if agent is not None:
                     neighbor_ids.add(agent.unique_id)
-            if unique_ids:
+            if unique_ids is not None:
                 unique_ids = list(neighbor_ids.intersection(unique_ids))
             else:
                 unique_ids = list(neighbor_ids)
-- 
2.43.0


From 83a8fb58ed71c3d33a3304f6d377a5524275fa57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:11 +0000
Subject: [PATCH 69/84] fix: in parallel, items that failed with an exception
 that cannot be copied, or that exited, blocked or stopped the rest

---
 soil/utils.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/soil/utils.py b/soil/utils.py
index dd9cf42..4a6b12f 100644
--- a/soil/utils.py
+++ b/soil/utils.py
@@ -1,6 +1,7 @@
 import logging
 from time import time as current_time, strftime, gmtime, localtime
 import os
+import pickle
 import traceback
 
 from functools import partial
@@ -137,15 +138,27 @@ def run_and_return_exceptions(func, *args, **kwargs):
     """
     try:
         return func(*args, **kwargs)
-    except Exception as ex:
+    except (Exception, SystemExit) as ex:
         if ex.__cause__ is not None:
             ex = ex.__cause__
-        ex.message = "".join(
+        message = "".join(
             traceback.format_exception(type(ex), ex, ex.__traceback__)[:]
         )
+        if not isinstance(ex, Exception) or not _can_be_sent(ex):
+            ex = RuntimeError(repr(ex))
+        ex.message = message
         return ex
 
 
+def _can_be_sent(obj):
+    """Whether the object can be sent to another process"""
+    try:
+        pickle.loads(pickle.dumps(obj))
+    except Exception:
+        return False
+    return True
+
+
 def run_parallel(func, iterable, num_processes=1, **kwargs):
     if num_processes > 1 and not os.environ.get("SOIL_DEBUG", None):
         if num_processes < 1:
-- 
2.43.0


From ee39861ad599b4aa391bec6918781ba6eb69208d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:11 +0000
Subject: [PATCH 70/84] fix: the limits given in the command line were ignored
 when converting a configuration

---
 soil/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/soil/__init__.py b/soil/__init__.py
index cdf5117..e470286 100644
--- a/soil/__init__.py
+++ b/soil/__init__.py
@@ -6,6 +6,7 @@ import sys
 import os
 import logging
 import traceback
+from dataclasses import replace
 
 from .version import __version__
 
@@ -245,14 +246,14 @@ def main(
                     except AttributeError:
                         target[tail] = v
 
-            if args.only_convert:
-                print(sim.to_yaml())
-                continue
             limits = {}
             if args.max_time != "-1":
                 limits["max_time"] = float(args.max_time)
             if args.max_steps != "-1":
                 limits["max_steps"] = float(args.max_steps)
+            if args.only_convert:
+                print(replace(sim, **limits).to_yaml())
+                continue
             res.append(sim.run(**limits))
 
     except Exception as ex:
-- 
2.43.0


From c9a1fca9f3b415d8427055f7701f0c0e52f53e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:11 +0000
Subject: [PATCH 71/84] fix: exporters were never told that an iteration starts

---
 soil/exporters.py  | 4 ++++
 soil/simulation.py | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/soil/exporters.py b/soil/exporters.py
index d28ff43..2fb5737 100644
--- a/soil/exporters.py
+++ b/soil/exporters.py
@@ -287,6 +287,10 @@ class default(Exporter):
         for exporter in self.inner:
             exporter.sim_end(*args, **kwargs)
 
+    def iteration_start(self, *args, **kwargs):
+        for exporter in self.inner:
+            exporter.iteration_start(*args, **kwargs)
+
     def iteration_end(self, *args, **kwargs):
         for exporter in self.inner:
             exporter.iteration_end(*args, **kwargs)
diff --git a/soil/simulation.py b/soil/simulation.py
index 9395848..ccbb7de 100644
--- a/soil/simulation.py
+++ b/soil/simulation.py
@@ -114,6 +114,7 @@ class Simulation:
                 self.name = self.model.__name__
         self.logger = logger.getChild(self.name)
         self.logger.setLevel(self.level)
+        self._exporters = []
 
         if self.source_file and (not os.path.isabs(self.source_file)):
             self.source_file = os.path.abspath(os.path.join(self.dir_path, self.source_file))
@@ -150,6 +151,7 @@ class Simulation:
             **self.exporter_params,
         )
 
+        self._exporters = exporters
         results = []
         for exporter in exporters:
             exporter.sim_start()
@@ -267,6 +269,9 @@ class Simulation:
                 )
             )
 
+            for exporter in self._exporters:
+                exporter.iteration_start(model)
+
             if self.debug:
                 set_trace()
 
-- 
2.43.0


From ff6828d1b06c34d9e034206b8078fd7d2f0eb947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:53 +0000
Subject: [PATCH 72/84] fix: an evented agent could not receive messages while
 it was being initialized

---
 soil/agents/evented.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soil/agents/evented.py b/soil/agents/evented.py
index 0f28a64..20c56b5 100644
--- a/soil/agents/evented.py
+++ b/soil/agents/evented.py
@@ -7,9 +7,10 @@ from types import coroutine
 
 class EventedAgent(BaseAgent):
     def __init__(self, *args, **kwargs):
-        super().__init__(*args, **kwargs)
+        # The agent may receive messages while it is being initialized
         self._inbox = deque()
         self._processed = 0
+        super().__init__(*args, **kwargs)
 
     def on_receive(self, *args, **kwargs):
         pass
-- 
2.43.0


From 141c802ac75da5971362cf944f5355dac128bfd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:53 +0000
Subject: [PATCH 73/84] fix: read_sql did not work with URLs

---
 soil/analysis.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/soil/analysis.py b/soil/analysis.py
index 0a35172..171c679 100644
--- a/soil/analysis.py
+++ b/soil/analysis.py
@@ -35,10 +35,9 @@ def read_sql(fpath=None, name=None, include_agents=False):
         raise ValueError("Specify either a path or a simulation name")
     if name:
         fpath = os.path.join("soil_output", name, f"{name}.sqlite")
-    fpath = os.path.abspath(fpath)
     # TODO: improve url parsing. This is a hacky way to check we weren't given a URL
-    if "://" not in fpath:
-        fpath = f"sqlite:///{fpath}"
+    if "://" not in str(fpath):
+        fpath = f"sqlite:///{os.path.abspath(fpath)}"
     engine = sqlalchemy.create_engine(fpath)
     with engine.connect() as conn:
         env = pd.read_sql_table("env", con=conn,
-- 
2.43.0


From e30dbbde8a4d576581f9db4817813ec4023afb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:53 +0000
Subject: [PATCH 74/84] fix: state machines could not be created with
 positional arguments, like any other agent

---
 soil/agents/fsm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soil/agents/fsm.py b/soil/agents/fsm.py
index 9373e62..1f0a518 100644
--- a/soil/agents/fsm.py
+++ b/soil/agents/fsm.py
@@ -114,8 +114,8 @@ class MetaFSM(MetaAgent):
 
 
 class FSM(BaseAgent, metaclass=MetaFSM):
-    def __init__(self, init=True, state_id=None, **kwargs):
-        super().__init__(**kwargs, init=False)
+    def __init__(self, *args, init=True, state_id=None, **kwargs):
+        super().__init__(*args, **kwargs, init=False)
         if state_id is not None:
             self._set_state(state_id)
         # If more than "dead" state is defined, but no default state
-- 
2.43.0


From e92eeb87c22077d484049d23f1fe519a522ce3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:53 +0000
Subject: [PATCH 75/84] fix: regular mesa agents could not be placed in the
 nodes of a network

---
 soil/environment.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soil/environment.py b/soil/environment.py
index f8edb85..d970024 100644
--- a/soil/environment.py
+++ b/soil/environment.py
@@ -364,7 +364,7 @@ class NetworkEnvironment(BaseEnvironment):
             node_id=node_id,
             **kwargs,
         )
-        a["visible"] = True
+        a.visible = True
         return a
 
     def _check_agent_nodes(self):
@@ -379,7 +379,7 @@ class NetworkEnvironment(BaseEnvironment):
                 agent.node_id = id
         for agent in self.get_agents():
             if hasattr(agent, "node_id"):
-                node_id = agent["node_id"]
+                node_id = agent.node_id
                 if node_id not in self.G.nodes:
                     raise ValueError(f"Agent {agent} is assigned to node {agent.node_id} which is not in the network")
                 node = self.G.nodes[node_id]
-- 
2.43.0


From ad6ea92ba69680276c1367091445834aa071f01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:09 +0000
Subject: [PATCH 76/84] fix: agents could not be used in a regular mesa model,
 nor know its time

---
 soil/agents/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/soil/agents/__init__.py b/soil/agents/__init__.py
index c28261f..5a08c2f 100644
--- a/soil/agents/__init__.py
+++ b/soil/agents/__init__.py
@@ -128,7 +128,7 @@ class BaseAgent(MesaAgent, MutableMapping, metaclass=MetaAgent):
 
         self.alive = True
 
-        logger = model.logger.getChild(self.name)
+        logger = getattr(model, "logger", utils.logger).getChild(self.name)
         self.logger = logging.LoggerAdapter(logger, {"agent_name": self.name})
 
         if hasattr(self, "level"):
@@ -233,8 +233,9 @@ class BaseAgent(MesaAgent, MutableMapping, metaclass=MetaAgent):
         try:
             return self.model.now
         except AttributeError:
-            # No environment
-            return None
+            # A vanilla mesa model, or no model at all
+            schedule = getattr(self.model, "schedule", None)
+            return None if schedule is None else schedule.time
 
     def die(self, msg=None):
         if msg:
-- 
2.43.0


From e63bb0d590eed3143b1f291a0f1c1f446c4748f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:09 +0000
Subject: [PATCH 77/84] fix: regular mesa models could not be run in a
 simulation, nor exported

---
 soil/exporters.py  |  2 ++
 soil/simulation.py | 19 +++++++++++++++++--
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/soil/exporters.py b/soil/exporters.py
index 2fb5737..0f3565f 100644
--- a/soil/exporters.py
+++ b/soil/exporters.py
@@ -87,6 +87,8 @@ class Exporter:
         return open_or_reuse(f, mode=mode, backup=self.simulation.backup, **kwargs)
 
     def get_dfs(self, env, **kwargs):
+        if getattr(env, "datacollector", None) is None:  # A vanilla mesa model
+            return
         yield from get_dc_dfs(env.datacollector,
                               simulation_id=self.simulation.id,
                               iteration_id=env.id,
diff --git a/soil/simulation.py b/soil/simulation.py
index ccbb7de..3323216 100644
--- a/soil/simulation.py
+++ b/soil/simulation.py
@@ -223,7 +223,7 @@ class Simulation:
         model_reporters = dict(self.model_reporters)
         model_reporters.update(params.pop("model_reporters", {}))
 
-        return self.model(
+        kwargs = dict(
             id=iteration_id,
             seed=f"{self.seed}_iteration_{iteration_id}",
             dir_path=self.dir_path,
@@ -231,8 +231,23 @@ class Simulation:
             agent_reporters=agent_reporters,
             model_reporters=model_reporters,
             tables=self.tables,
-            **params,
         )
+        if inspect.isclass(self.model) and not issubclass(self.model, environment.BaseEnvironment):
+            return self._get_mesa_model(kwargs, params)
+        return self.model(**kwargs, **params)
+
+    def _get_mesa_model(self, kwargs, params):
+        """Create a vanilla mesa model, which may not know the arguments of soil environments"""
+        model = self.model.__new__(self.model, **kwargs, **params)
+        accepted = inspect.signature(model.__init__).parameters
+        if not any(p.kind == p.VAR_KEYWORD for p in accepted.values()):
+            known = {k: v for (k, v) in kwargs.items() if k in accepted}
+        else:
+            known = kwargs
+        model.__init__(**known, **params)
+        if not hasattr(model, "id"):  # Used by the exporters
+            model.id = kwargs["id"]
+        return model
 
     def _run_model(self, iteration_id, **params):
         """
-- 
2.43.0


From d1dacfa16ab67e2f91b321e7a6828061b5a35d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:28 +0000
Subject: [PATCH 78/84] fix: simulations can be run while others that use
 source files are running

The names of a simulation led to the classes of the file of the outer one, and
running a simulation of the same file made the outer one fail when it ended.
---
 soil/serialization.py | 38 ++++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/soil/serialization.py b/soil/serialization.py
index 4c8eb12..ab54466 100644
--- a/soil/serialization.py
+++ b/soil/serialization.py
@@ -116,43 +116,41 @@ KNOWN_MODULES = {
 
 }
 
-MODULE_FILES = {}
+MODULE_FILES = []  # The files in use, and their modules. The last one takes precedence
+
+def _use_last_source():
+    """Only the names in the last file are known, even if other files are being used"""
+    KNOWN_MODULES.pop("imported_module_0", None)
+    if MODULE_FILES:
+        KNOWN_MODULES["imported_module_0"] = MODULE_FILES[-1][1]
 
 def _add_source_file(file):
     """Add a file to the list of known modules"""
     file = os.path.abspath(file)
-    if file in MODULE_FILES:
-        logger.warning(f"File {file} already added as module {MODULE_FILES[file]}. Reloading")
-        _remove_source_file(file)
-    modname = f"imported_module_{len(MODULE_FILES)}"
-    loader = importlib.machinery.SourceFileLoader(modname, file)
+    loader = importlib.machinery.SourceFileLoader("imported_module_0", file)
     spec = importlib.util.spec_from_loader(loader.name, loader)
     my_module = importlib.util.module_from_spec(spec)
     loader.exec_module(my_module)
-    MODULE_FILES[file] = modname
-    KNOWN_MODULES[modname] = my_module
+    added = [file, my_module]
+    MODULE_FILES.append(added)
+    _use_last_source()
+    return added
 
-def _remove_source_file(file):
+def _remove_source_file(added):
     """Remove a file from the list of known modules"""
-    file = os.path.abspath(file)
-    modname = None
-    try:
-        modname = MODULE_FILES.pop(file)
-        KNOWN_MODULES.pop(modname)
-    except KeyError as ex:
-        raise ValueError(f"File {file} had not been added as a module: {ex}")
+    MODULE_FILES[:] = [other for other in MODULE_FILES if other is not added]
+    _use_last_source()
 
 
 @contextmanager
 def with_source(file=None):
     """Add a file to the list of known modules, and remove it afterwards"""
-    if file:
-        _add_source_file(file)
+    added = _add_source_file(file) if file else None
     try:
         yield
     finally:
-        if file:
-            _remove_source_file(file)
+        if added:
+            _remove_source_file(added)
 
 def get_module(modname):
     """Get a module, either from the list of known modules or by importing it"""
-- 
2.43.0


From 596d1c881d8293faba76588a20182254b83e0388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:57 +0000
Subject: [PATCH 79/84] fix: states are inherited in the usual order

With several parents, the states (and the default state) of the last one
replaced those of the first one, so that mix-ins had no effect.
---
 soil/agents/fsm.py | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/soil/agents/fsm.py b/soil/agents/fsm.py
index 1f0a518..229e29f 100644
--- a/soil/agents/fsm.py
+++ b/soil/agents/fsm.py
@@ -78,36 +78,35 @@ def default_state(func):
 
 class MetaFSM(MetaAgent):
     def __new__(mcls, name, bases, namespace):
-        states = {}
-        # Re-use states from inherited classes
-        default_state = None
-        for i in bases:
-            if isinstance(i, MetaFSM):
-                if i._state is not None:
-                    default_state = i._state
-                states.update(i._states)
-
-        # Add new states
+        own_states = {}
+        own_default = None
         for attr, func in namespace.items():
             if isinstance(func, State):
                 if func.default:
-                    default_state = func
-                states[func.name] = func
-
-        # The default state may have been overridden
-        if default_state is not None:
-            default_state = states[default_state.name]
+                    own_default = func.name
+                own_states[func.name] = func
 
         namespace.update(
             {
-                "_state": default_state,
-                "_states": states,
+                "_own_states": own_states,
+                "_own_default": own_default,
             }
         )
 
         cls = super(MetaFSM, mcls).__new__(
             mcls=mcls, name=name, bases=bases, namespace=namespace
         )
+
+        # Re-use states from inherited classes, in the usual order
+        states = {}
+        default_state = None
+        for base in reversed(cls.__mro__):
+            states.update(base.__dict__.get("_own_states", {}))
+            default_state = base.__dict__.get("_own_default") or default_state
+
+        cls._states = states
+        # The default state may have been overridden
+        cls._state = states.get(default_state)
         for (k, v) in states.items():
             setattr(cls, k, v)
         return cls
-- 
2.43.0


From e45555f18a61e1288e6f196f91bb80fff0fce0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:31 +0000
Subject: [PATCH 80/84] fix: an exception in an agent does not discard the
 activations of others

The agents that were due at the same time were never activated again if the
model was used after the exception.
---
 soil/time.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/soil/time.py b/soil/time.py
index ffc0257..b53dd58 100644
--- a/soil/time.py
+++ b/soil/time.py
@@ -162,6 +162,12 @@ class TimedActivation(DiscreteActivation):
                 break
         self._queue.insert(pos, (when, [agent]))
 
+    def _put_back(self, agents, now):
+        if self._queue and self._queue[0][0] == now:
+            agents = agents + self._queue.popleft()[1]
+        if agents:
+            self._queue.appendleft((now, agents))
+
     def step(self) -> None:
         """
         Executes agents in order, one at a time. After each step,
@@ -182,7 +188,7 @@ class TimedActivation(DiscreteActivation):
         bucket = self._queue.popleft()[1]
         if self._shuffle:
             self.model.random.shuffle(bucket)
-        for agent in bucket:
+        for (ix, agent) in enumerate(bucket):
             if not self._is_active(agent):
                 continue
 
@@ -190,6 +196,10 @@ class TimedActivation(DiscreteActivation):
                 when = self._next_activation(agent, now)
             except DeadAgent:
                 continue
+            except BaseException:
+                # The rest of the agents may still be activated
+                self._put_back(bucket[ix + 1:], now)
+                raise
 
             if when != INFINITY and self._is_active(agent):
                 self._schedule(agent, when, replace=True)
-- 
2.43.0


From 658cdd7be3263eab00bf617d13767c5abe5c4677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:31 +0000
Subject: [PATCH 81/84] fix: an agent that was interrupted starts afresh in its
 next activation

---
 soil/agents/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soil/agents/__init__.py b/soil/agents/__init__.py
index 5a08c2f..02c7b5f 100644
--- a/soil/agents/__init__.py
+++ b/soil/agents/__init__.py
@@ -39,7 +39,7 @@ def decorate_generator_step(func, name):
             except StopIteration as ex:
                 self._coroutine = None
                 val = ex.value
-            except Exception:
+            except BaseException:
                 self._coroutine = None
                 raise
             finally:
-- 
2.43.0


From 2d9b20bca5a66c5d5d14c4cce00cdc03efeb9177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:58 +0000
Subject: [PATCH 82/84] fix: each run of a simulation has its own identifier

The identifier was set when the simulation was created, so a second run of the
same simulation object shared its identifier with the first one.
---
 soil/simulation.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/soil/simulation.py b/soil/simulation.py
index 3323216..6e3ec6f 100644
--- a/soil/simulation.py
+++ b/soil/simulation.py
@@ -115,6 +115,7 @@ class Simulation:
         self.logger = logger.getChild(self.name)
         self.logger.setLevel(self.level)
         self._exporters = []
+        self._has_run = False
 
         if self.source_file and (not os.path.isabs(self.source_file)):
             self.source_file = os.path.abspath(os.path.join(self.dir_path, self.source_file))
@@ -138,6 +139,10 @@ class Simulation:
             _QUEUED.extend((self, param) for param in param_combinations)
             return []
 
+        if self._has_run:  # The results of each run should have their own identifier
+            self.id = f"{self.name}_{current_time()}"
+        self._has_run = True
+
         self.logger.debug("Using exporters: %s", self.exporters or [])
 
         exporters = serialization.deserialize_all(
-- 
2.43.0


From 6a3a80d316e8e222551cb7ac4fe710917a51cf84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:06 +0000
Subject: [PATCH 83/84] fix: agents that come back to the schedule are
 activated once

The activation that they had requested before leaving it was still in the queue, so they were
activated then as well, and twice from then on.
---
 soil/time.py | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/soil/time.py b/soil/time.py
index b53dd58..9d9e892 100644
--- a/soil/time.py
+++ b/soil/time.py
@@ -1,6 +1,6 @@
 from mesa.time import BaseScheduler
 from queue import Empty
-from heapq import heappush, heappop, heapreplace
+from heapq import heapify, heappush, heappop, heapreplace
 from collections import deque
 import math
 import logging
@@ -38,6 +38,18 @@ class DiscreteActivation(BaseScheduler):
         super().__init__(*args, **kwargs)
         if hasattr(self.model, 'default_interval'):
             self.default_interval = self.model.default_interval
+        self._removed = set()
+
+    def remove(self, agent):
+        super().remove(agent)
+        if getattr(agent, "alive", True):
+            self._removed.add(agent)
+
+    def _discard_previous(self, agent):
+        '''An agent that comes back to the schedule should not be activated when it asked to before leaving it'''
+        if agent in self._removed:
+            self._removed.remove(agent)
+            self._unschedule(agent)
 
     def _is_active(self, agent):
         '''Whether an agent is still in the schedule'''
@@ -73,8 +85,13 @@ class PQueueActivation(DiscreteActivation):
             when = max(float(when), self.time)
 
         super().add(agent)
+        self._discard_previous(agent)
         self._schedule(agent, when)
 
+    def _unschedule(self, agent):
+        self._queue[:] = [entry for entry in self._queue if entry[1] is not agent]
+        heapify(self._queue)
+
     def _schedule(self, agent, when=None, replace=False):
         if when is None:
             when = self.time
@@ -138,6 +155,7 @@ class TimedActivation(DiscreteActivation):
     def __init__(self, *args, shuffle=True, **kwargs):
         super().__init__(*args, **kwargs)
         self._queue = deque()
+        self._bucket = []
         self._shuffle = shuffle
         self.logger = getattr(self.model, "logger", logger).getChild(f"time_{ self.model }")
         self.next_time = self.time
@@ -148,8 +166,17 @@ class TimedActivation(DiscreteActivation):
         else:
             when = max(float(when), self.time)
         super().add(agent)
+        self._discard_previous(agent)
         self._schedule(agent, when)
 
+    def _unschedule(self, agent):
+        # The agents that are being activated keep their position
+        self._bucket[:] = [other if other is not agent else None for other in self._bucket]
+        for (when, agents) in list(self._queue):
+            agents[:] = [other for other in agents if other is not agent]
+            if not agents:
+                self._queue.remove((when, agents))
+
     def _schedule(self, agent, when=None, replace=False):
         when = when or self.time
         pos = len(self._queue)
@@ -185,7 +212,7 @@ class TimedActivation(DiscreteActivation):
             self.time = next_time
             return
 
-        bucket = self._queue.popleft()[1]
+        bucket = self._bucket = self._queue.popleft()[1]
         if self._shuffle:
             self.model.random.shuffle(bucket)
         for (ix, agent) in enumerate(bucket):
-- 
2.43.0


From 33f702804e44d4b5b78db27ffe875723bfbab910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:06 +0000
Subject: [PATCH 84/84] fix: schedulers activate the agents that they are
 created with

---
 soil/time.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/soil/time.py b/soil/time.py
index 9d9e892..75afc84 100644
--- a/soil/time.py
+++ b/soil/time.py
@@ -77,6 +77,8 @@ class PQueueActivation(DiscreteActivation):
         self._shuffle = shuffle
         self.logger = getattr(self.model, "logger", logger).getChild(f"time_{ self.model }")
         self.next_time = self.time
+        for agent in self._agents:
+            self._schedule(agent, self.time)
 
     def add(self, agent: MesaAgent, when=None):
         if when is None:
@@ -159,6 +161,8 @@ class TimedActivation(DiscreteActivation):
         self._shuffle = shuffle
         self.logger = getattr(self.model, "logger", logger).getChild(f"time_{ self.model }")
         self.next_time = self.time
+        for agent in self._agents:
+            self._schedule(agent, self.time)
 
     def add(self, agent: MesaAgent, when=None):
         if when is None:
-- 
2.43.0

