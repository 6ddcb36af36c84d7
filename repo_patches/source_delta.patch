From 5279695c217b7e02c3710cb99941d565145b7769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:44 +0000
Subject: [PATCH 01/90] fix: keep the seed of the components on an unseeded
 reset

reset() without a seed re-seeded every component from OS entropy, so only the
first episode after reset(seed=...) was reproducible, contrary to the
RandomComponent documentation and the gymnasium seeding semantics.
---
 src/gym_electric_motor/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/core.py b/src/gym_electric_motor/core.py
index 47b5f2a..9ab7e69 100644
--- a/src/gym_electric_motor/core.py
+++ b/src/gym_electric_motor/core.py
@@ -306,7 +306,9 @@ class ElectricMotorEnvironment(gymnasium.core.Env):
              info(dict): Auxiliary information (optional)
         """
 
-        self._seed(seed)
+        # Without a seed, the components continue with their current seed sequences (see RandomComponent).
+        if seed is not None:
+            self._seed(seed)
         self._call_callbacks("on_reset_begin")
         self._terminated = False
         state = self._physical_system.reset()
-- 
2.43.0


From bb362c29225dc28e6739828f9a7a1b359dffa8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:19 +0000
Subject: [PATCH 02/90] fix: seed the physical system wrappers themselves

PhysicalSystemWrapper.seed only forwarded the seed to the inner system, so the
noise of a StateNoiseProcessor was not reproducible by seeding the environment.
---
 .../physical_system_wrappers/physical_system_wrapper.py       | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_system_wrappers/physical_system_wrapper.py b/src/gym_electric_motor/physical_system_wrappers/physical_system_wrapper.py
index bb4332c..8e10748 100644
--- a/src/gym_electric_motor/physical_system_wrappers/physical_system_wrapper.py
+++ b/src/gym_electric_motor/physical_system_wrappers/physical_system_wrapper.py
@@ -107,8 +107,10 @@ class PhysicalSystemWrapper(gem.core.PhysicalSystem, RandomComponent):
 
     def seed(self, seed=None):
         # docstring of super class RandomComponent
+        super().seed(seed)
         if isinstance(self._physical_system, RandomComponent):
-            self._physical_system.seed(seed)
+            self._physical_system.seed(self._seed_sequence.spawn(1)[0])
+        return [self._seed_sequence.entropy]
 
     def __getattr__(self, name):
         return getattr(self._physical_system, name)
-- 
2.43.0


From d92d455ace7ea42beba6eea3b9b9d33b50b394eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:27 +0000
Subject: [PATCH 03/90] fix: support the documented states='all' shortcut of
 the StateNoiseProcessor

---
 .../physical_system_wrappers/state_noise_processor.py          | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_system_wrappers/state_noise_processor.py b/src/gym_electric_motor/physical_system_wrappers/state_noise_processor.py
index 76d8663..1090057 100644
--- a/src/gym_electric_motor/physical_system_wrappers/state_noise_processor.py
+++ b/src/gym_electric_motor/physical_system_wrappers/state_noise_processor.py
@@ -65,7 +65,8 @@ class StateNoiseProcessor(PhysicalSystemWrapper):
     def set_physical_system(self, physical_system):
         # Docstring from super class
         super().set_physical_system(physical_system)
-        self._state_indices = [physical_system.state_positions[state_name] for state_name in self._states]
+        states = physical_system.state_names if isinstance(self._states, str) and self._states == "all" else self._states
+        self._state_indices = [physical_system.state_positions[state_name] for state_name in states]
         return self
 
     def reset(self):
-- 
2.43.0


From 4d869c1a4311062550b2c8271be749734592ae96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:21 +0000
Subject: [PATCH 04/90] fix: draw the phase of the AC supplies from a seeded
 generator

The random phase came from the global numpy generator, which the seed of the
environment does not control, and was written into the dict of the caller, so
that the next supply built from it silently had a fixed phase.
---
 .../physical_systems/voltage_supplies.py      | 22 ++++++++++++-------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/voltage_supplies.py b/src/gym_electric_motor/physical_systems/voltage_supplies.py
index 9dcba41..2025aeb 100644
--- a/src/gym_electric_motor/physical_systems/voltage_supplies.py
+++ b/src/gym_electric_motor/physical_systems/voltage_supplies.py
@@ -4,6 +4,8 @@ import numpy as np
 
 from gym_electric_motor.physical_systems.solvers import EulerSolver
 
+from ..random_component import RandomComponent
+
 
 class VoltageSupply:
     """Base class for all VoltageSupplies to be used in a SCMLSystem.
@@ -123,7 +125,7 @@ class RCVoltageSupply(VoltageSupply):
         return self._u_sup
 
 
-class AC1PhaseSupply(VoltageSupply):
+class AC1PhaseSupply(VoltageSupply, RandomComponent):
     """AC one phase voltage supply"""
 
     def __init__(self, u_nominal=230, supply_parameter=None):
@@ -134,6 +136,7 @@ class AC1PhaseSupply(VoltageSupply):
         """
 
         super().__init__(u_nominal)
+        RandomComponent.__init__(self)
 
         self._fixed_phi = False
         if supply_parameter is not None:
@@ -146,9 +149,9 @@ class AC1PhaseSupply(VoltageSupply):
                 self._fixed_phi = True
                 supply_parameter = supply_parameter
             else:
-                supply_parameter["phase"] = np.random.rand() * 2 * np.pi
+                supply_parameter = dict(supply_parameter, phase=self.random_generator.random() * 2 * np.pi)
         else:
-            supply_parameter = {"frequency": 50, "phase": np.random.rand() * 2 * np.pi}
+            supply_parameter = {"frequency": 50, "phase": self.random_generator.random() * 2 * np.pi}
 
         self._f = supply_parameter["frequency"]
         self._phi = supply_parameter["phase"]
@@ -156,8 +159,9 @@ class AC1PhaseSupply(VoltageSupply):
         self.supply_range = [-1 * self._max_amp, self._max_amp]
 
     def reset(self):
+        self.next_generator()
         if not self._fixed_phi:
-            self._phi = np.random.rand() * 2 * np.pi
+            self._phi = self.random_generator.random() * 2 * np.pi
         return self.get_voltage(0)
 
     def get_voltage(self, t, *_, **__):
@@ -166,7 +170,7 @@ class AC1PhaseSupply(VoltageSupply):
         return self._u_sup
 
 
-class AC3PhaseSupply(VoltageSupply):
+class AC3PhaseSupply(VoltageSupply, RandomComponent):
     """AC three phase voltage supply"""
 
     voltage_len = 3
@@ -179,6 +183,7 @@ class AC3PhaseSupply(VoltageSupply):
         """
 
         super().__init__(u_nominal)
+        RandomComponent.__init__(self)
         self._fixed_phi = False
         if supply_parameter is not None:
             assert isinstance(supply_parameter, dict), "supply_parameter should be a dict"
@@ -190,9 +195,9 @@ class AC3PhaseSupply(VoltageSupply):
                 self._fixed_phi = True
                 supply_parameter = supply_parameter
             else:
-                supply_parameter["phase"] = np.random.rand() * 2 * np.pi
+                supply_parameter = dict(supply_parameter, phase=self.random_generator.random() * 2 * np.pi)
         else:
-            supply_parameter = {"frequency": 50, "phase": np.random.rand() * 2 * np.pi}
+            supply_parameter = {"frequency": 50, "phase": self.random_generator.random() * 2 * np.pi}
 
         self._f = supply_parameter["frequency"]
         self._phi = supply_parameter["phase"]
@@ -201,8 +206,9 @@ class AC3PhaseSupply(VoltageSupply):
 
     def reset(self):
         # Docstring of superclass
+        self.next_generator()
         if not self._fixed_phi:
-            self._phi = np.random.rand() * 2 * np.pi
+            self._phi = self.random_generator.random() * 2 * np.pi
         return self.get_voltage(0)
 
     def get_voltage(self, t, *_, **__):
-- 
2.43.0


From 1b51c49671739bd8d052549a70e433653e6193e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:29 +0000
Subject: [PATCH 05/90] fix: make the OrnsteinUhlenbeckLoad constructible and
 seedable

The constructor read _omega_range before setting it and always raised, and the
process drew from the global numpy generator instead of its random_generator.
---
 .../mechanical_loads/ornstein_uhlenbeck_load.py           | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/mechanical_loads/ornstein_uhlenbeck_load.py b/src/gym_electric_motor/physical_systems/mechanical_loads/ornstein_uhlenbeck_load.py
index 18d0dca..61568a9 100644
--- a/src/gym_electric_motor/physical_systems/mechanical_loads/ornstein_uhlenbeck_load.py
+++ b/src/gym_electric_motor/physical_systems/mechanical_loads/ornstein_uhlenbeck_load.py
@@ -19,22 +19,22 @@ class OrnsteinUhlenbeckLoad(MechanicalLoad):
             kwargs(dict): further arguments passed to the superclass :py:class:`.MechanicalLoad`
         """
         super().__init__(**kwargs)
-        self._omega = np.random.uniform(self._omega_range[0], self._omega_range[1], 1)
+        self._omega_range = omega_range
+        self._omega = self.random_generator.uniform(self._omega_range[0], self._omega_range[1], 1)
         self.theta = theta
         self.mu = mu
         self.tau = tau
         self.sigma = sigma
-        self._omega_range = omega_range
 
     def mechanical_ode(self, t, mechanical_state, torque):
         omega = mechanical_state
         max_diff = (self._omega_range[1] - omega) / self.tau
         min_diff = (self._omega_range[0] - omega) / self.tau
-        diff = self.theta * (self.mu - omega) * self.tau + self.sigma * np.sqrt(self.tau) * np.random.normal(size=1)
+        diff = self.theta * (self.mu - omega) * self.tau + self.sigma * np.sqrt(self.tau) * self.random_generator.normal(size=1)
         np.clip(diff, min_diff, max_diff, out=diff)
         return diff
 
     def reset(self, **kwargs):
         super().reset(**kwargs)
-        self._omega = np.random.uniform(self._omega_range[0], self._omega_range[1], 1)
+        self._omega = self.random_generator.uniform(self._omega_range[0], self._omega_range[1], 1)
         return self._omega
-- 
2.43.0


From ad5eb196d835b16fcb5ad89ffb26930ef7259758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:55 +0000
Subject: [PATCH 06/90] fix: return the derivative of the Ornstein-Uhlenbeck
 process

mechanical_ode returned the increment over one tau, which the solver then
multiplied by tau again: with the default tau the drift was 1e4 times too slow.
---
 .../mechanical_loads/ornstein_uhlenbeck_load.py                | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_systems/mechanical_loads/ornstein_uhlenbeck_load.py b/src/gym_electric_motor/physical_systems/mechanical_loads/ornstein_uhlenbeck_load.py
index 61568a9..27c90c1 100644
--- a/src/gym_electric_motor/physical_systems/mechanical_loads/ornstein_uhlenbeck_load.py
+++ b/src/gym_electric_motor/physical_systems/mechanical_loads/ornstein_uhlenbeck_load.py
@@ -30,7 +30,8 @@ class OrnsteinUhlenbeckLoad(MechanicalLoad):
         omega = mechanical_state
         max_diff = (self._omega_range[1] - omega) / self.tau
         min_diff = (self._omega_range[0] - omega) / self.tau
-        diff = self.theta * (self.mu - omega) * self.tau + self.sigma * np.sqrt(self.tau) * self.random_generator.normal(size=1)
+        # The ODE solver integrates the derivative over tau: d_omega / tau = drift + diffusion / sqrt(tau)
+        diff = self.theta * (self.mu - omega) + self.sigma / np.sqrt(self.tau) * self.random_generator.normal(size=1)
         np.clip(diff, min_diff, max_diff, out=diff)
         return diff
 
-- 
2.43.0


From a2ea205d647399648d2ab57c7f6f223077ca0d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:12 +0000
Subject: [PATCH 07/90] fix: do not share the initial load states between
 instances

ConstantSpeedLoad wrote its speed into, and the random initialization of every
load wrote its samples into, the initializer dict of the class (or caller), so
loads that were created later started with the speed of an earlier one.
---
 .../physical_systems/mechanical_loads/mechanical_load.py       | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py b/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
index d158070..9dd0094 100644
--- a/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
+++ b/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
@@ -95,6 +95,9 @@ class MechanicalLoad(RandomComponent):
         load_initializer = load_initializer or {}
         self._initializer = self._default_initializer.copy()
         self._initializer.update(load_initializer)
+        # Own copies, because the initial states are updated at every (random) initialization
+        if self._initializer.get("states") is not None:
+            self._initializer["states"] = dict(self._initializer["states"])
         self._initial_states = self._initializer.get("states", {state: 0.0 for state in self._state_names})
 
     def initialize(self, state_space, state_positions, nominal_state, **__):
-- 
2.43.0


From e8575b3e5167d124ace89aa78d627803be648416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:05 +0000
Subject: [PATCH 08/90] fix: draw gaussian initial values from the episode
 generator

The truncated normal initialization used one pool word of the seed sequence as
its seed, so every episode started with the same 'random' values.
---
 .../physical_systems/electric_motors/electric_motor.py          | 2 +-
 .../physical_systems/mechanical_loads/mechanical_load.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
index e3ad6d8..62aa0fe 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
@@ -247,7 +247,7 @@ class ElectricMotor(RandomComponent):
                     loc=mue,
                     scale=sigma,
                     size=(len(self._initial_states.keys())),
-                    random_state=self.seed_sequence.pool[0],
+                    random_state=self.random_generator,
                 )
                 # writing initial values in initial_states dict
                 random_states = {state: initial_value[idx] for idx, state in enumerate(self._initial_states.keys())}
diff --git a/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py b/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
index 9dd0094..e58070a 100644
--- a/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
+++ b/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
@@ -151,7 +151,7 @@ class MechanicalLoad(RandomComponent):
                     loc=mue,
                     scale=sigma,
                     size=(len(self._initial_states.keys())),
-                    random_state=self.seed_sequence.pool[0],
+                    random_state=self.random_generator,
                 )
                 random_states = {state: initial_value[idx] for idx, state in enumerate(self._initial_states.keys())}
                 self._initial_states.update(random_states)
-- 
2.43.0


From 63e0b0da73267886d1f5ef80c8d7ebc2ca0d6e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:26 +0000
Subject: [PATCH 09/90] fix: order the initial motor states as in the motor ode

---
 .../physical_systems/electric_motors/electric_motor.py         | 2 +-
 .../physical_systems/electric_motors/induction_motor.py        | 3 ++-
 .../physical_systems/electric_motors/synchronous_motor.py      | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
index 62aa0fe..52cdf10 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
@@ -280,7 +280,7 @@ class ElectricMotor(RandomComponent):
         self.next_generator()
         if self._initializer and self._initializer["states"]:
             self.initialize(state_space, state_positions)
-            return np.asarray(list(self._initial_states.values()))
+            return np.asarray([self._initial_states[state] for state in self.CURRENTS])
         else:
             return np.zeros(len(self.CURRENTS))
 
diff --git a/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py
index 843cce8..0694ba5 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py
@@ -180,7 +180,8 @@ class InductionMotor(ThreePhaseMotor):
         if self._initializer and self._initializer["states"]:
             self._update_initial_limits(omega=omega)
             self.initialize(state_space, state_positions)
-            return np.asarray(list(self._initial_states.values()))
+            states = self.CURRENTS + self.FLUXES + ["epsilon"]
+            return np.asarray([self._initial_states[state] for state in states])
         else:
             return np.zeros(len(self.CURRENTS) + len(self.FLUXES) + 1)
 
diff --git a/src/gym_electric_motor/physical_systems/electric_motors/synchronous_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/synchronous_motor.py
index f6b25d1..3aeb428 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/synchronous_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/synchronous_motor.py
@@ -126,7 +126,7 @@ class SynchronousMotor(ThreePhaseMotor):
         # Docstring of superclass
         if self._initializer and self._initializer["states"]:
             self.initialize(state_space, state_positions)
-            return np.asarray(list(self._initial_states.values()))
+            return np.asarray([self._initial_states[state] for state in self.CURRENTS + ["epsilon"]])
         else:
             return np.zeros(len(self.CURRENTS) + 1)
 
-- 
2.43.0


From 968ecf9994ab5b7d08b7530f6fe8201698e90e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:56 +0000
Subject: [PATCH 10/90] fix: reset the switching state of the two quadrant
 converter

---
 src/gym_electric_motor/physical_systems/converters.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gym_electric_motor/physical_systems/converters.py b/src/gym_electric_motor/physical_systems/converters.py
index 2327ec4..c460ecd 100644
--- a/src/gym_electric_motor/physical_systems/converters.py
+++ b/src/gym_electric_motor/physical_systems/converters.py
@@ -267,6 +267,11 @@ class FiniteTwoQuadrantConverter(FiniteConverter):
     currents = Box(-1, 1, shape=(1,), dtype=np.float64)
     action_space = Discrete(3)
 
+    def reset(self):
+        # Docstring in base class
+        self._switching_state = 0
+        return super().reset()
+
     def convert(self, i_out, t):
         # Docstring in base class
         # Converter switches slightly (tau / 1000 seconds) before interlocking time due to inaccuracy of the solvers.
-- 
2.43.0


From b4817ad6f85dba5d6beefadf7e370b83ce970db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:07 +0000
Subject: [PATCH 11/90] fix: pass the sampling time of the system on to the
 half bridges

---
 .../physical_systems/converters.py            | 40 +++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/src/gym_electric_motor/physical_systems/converters.py b/src/gym_electric_motor/physical_systems/converters.py
index c460ecd..996d137 100644
--- a/src/gym_electric_motor/physical_systems/converters.py
+++ b/src/gym_electric_motor/physical_systems/converters.py
@@ -338,6 +338,16 @@ class FiniteFourQuadrantConverter(FiniteConverter):
     currents = Box(-1, 1, shape=(1,), dtype=np.float64)
     action_space = Discrete(4)
 
+    @property
+    def tau(self):
+        return self._tau
+
+    @tau.setter
+    def tau(self, value):
+        self._tau = float(value)
+        for sub_converter in self._subconverters:
+            sub_converter.tau = value
+
     def __init__(self, **kwargs):
         # Docstring in base class
         super().__init__(**kwargs)
@@ -465,6 +475,16 @@ class ContFourQuadrantConverter(ContDynamicallyAveragedConverter):
     currents = Box(-1, 1, shape=(1,), dtype=np.float64)
     action_space = Box(-1, 1, shape=(1,), dtype=np.float64)
 
+    @property
+    def tau(self):
+        return self._tau
+
+    @tau.setter
+    def tau(self, value):
+        self._tau = float(value)
+        for sub_converter in self._subconverters:
+            sub_converter.tau = value
+
     def __init__(self, **kwargs):
         # Docstring in base class
         super().__init__(**kwargs)
@@ -801,6 +821,16 @@ class FiniteB6BridgeConverter(FiniteConverter):
         [1, 1, 1],
     ]
 
+    @property
+    def tau(self):
+        return self._tau
+
+    @tau.setter
+    def tau(self, value):
+        self._tau = float(value)
+        for sub_converter in self._sub_converters:
+            sub_converter.tau = value
+
     def __init__(self, tau=1e-5, **kwargs):
         # Docstring in base class
         super().__init__(tau=tau, **kwargs)
@@ -873,6 +903,16 @@ class ContB6BridgeConverter(ContDynamicallyAveragedConverter):
 
     _reset_action = [0, 0, 0]
 
+    @property
+    def tau(self):
+        return self._tau
+
+    @tau.setter
+    def tau(self, value):
+        self._tau = float(value)
+        for sub_converter in self._subconverters:
+            sub_converter.tau = value
+
     def __init__(self, tau=1e-4, **kwargs):
         # Docstring in base class
         super().__init__(tau=tau, **kwargs)
-- 
2.43.0


From e76a6cb62d59093048e203792fe23ac00a56d734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:48 +0000
Subject: [PATCH 12/90] fix: end the interlocking of the finite converters
 after the interlocking time

---
 .../physical_systems/converters.py            |  2 +-
 .../physical_systems/physical_systems.py      | 20 +++++++++----------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/converters.py b/src/gym_electric_motor/physical_systems/converters.py
index 996d137..d933af2 100644
--- a/src/gym_electric_motor/physical_systems/converters.py
+++ b/src/gym_electric_motor/physical_systems/converters.py
@@ -89,7 +89,7 @@ class PowerElectronicConverter:
 
         Args:
             i_out(list(float)): All currents that flow out of the converter into the motor.
-            t(float): Current time of the system.
+            t(float): Time until the voltages are applied, i.e. the end of the current switching interval.
 
         Returns:
              list(float): List of all input voltages at the motor.
diff --git a/src/gym_electric_motor/physical_systems/physical_systems.py b/src/gym_electric_motor/physical_systems/physical_systems.py
index 5e8640e..88b012e 100644
--- a/src/gym_electric_motor/physical_systems/physical_systems.py
+++ b/src/gym_electric_motor/physical_systems/physical_systems.py
@@ -177,7 +177,7 @@ class SCMLSystem(PhysicalSystem, RandomComponent):
         for t in switching_times[:-1]:
             i_sup = self._converter.i_sup(i_in)
             u_sup = self._supply.get_voltage(self._t, i_sup)
-            u_in = self._converter.convert(i_in, self._ode_solver.t)
+            u_in = self._converter.convert(i_in, t)
             u_in = [u * u_s for u in u_in for u_s in u_sup]
             self._ode_solver.set_f_params(u_in)
             ode_state = self._ode_solver.integrate(t)
@@ -185,7 +185,7 @@ class SCMLSystem(PhysicalSystem, RandomComponent):
 
         i_sup = self._converter.i_sup(i_in)
         u_sup = self._supply.get_voltage(self._t, i_sup)
-        u_in = self._converter.convert(i_in, self._ode_solver.t)
+        u_in = self._converter.convert(i_in, self._t + self.tau)
         u_in = [u * u_s for u in u_in for u_s in u_sup]
         self._ode_solver.set_f_params(u_in)
         ode_state = self._ode_solver.integrate(self._t + self.tau)
@@ -496,7 +496,7 @@ class SynchronousMotorSystem(ThreePhaseMotorSystem):
         for t in switching_times[:-1]:
             i_sup = self._converter.i_sup(i_in)
             u_sup = self._supply.get_voltage(self._t, i_sup)
-            u_in = self._converter.convert(i_in, self._ode_solver.t)
+            u_in = self._converter.convert(i_in, t)
             u_in = [u * u_s for u in u_in for u_s in u_sup]
             u_dq = self.abc_to_dq_space(u_in, eps)
             self._ode_solver.set_f_params(u_dq)
@@ -506,7 +506,7 @@ class SynchronousMotorSystem(ThreePhaseMotorSystem):
 
         i_sup = self._converter.i_sup(i_in)
         u_sup = self._supply.get_voltage(self._t, i_sup)
-        u_in = self._converter.convert(i_in, self._ode_solver.t)
+        u_in = self._converter.convert(i_in, self._t + self._tau)
         u_in = [u * u_s for u in u_in for u_s in u_sup]
         u_dq = self.abc_to_dq_space(u_in, eps)
         self._ode_solver.set_f_params(u_dq)
@@ -627,7 +627,7 @@ class ExternallyExcitedSynchronousMotorSystem(SynchronousMotorSystem):
         for t in switching_times[:-1]:
             i_sup = self._converter.i_sup(i_in_abc_e)
             u_sup = self._supply.get_voltage(self._t, i_sup)
-            u_in = self._converter.convert(i_in_abc_e, self._ode_solver.t)
+            u_in = self._converter.convert(i_in_abc_e, t)
             u_in = [u * u_s for u in u_in for u_s in u_sup]
             u_dq_e = list(self.abc_to_dq_space(u_in[:2], eps)) + u_in[2:]
             self._ode_solver.set_f_params(u_dq_e)
@@ -638,7 +638,7 @@ class ExternallyExcitedSynchronousMotorSystem(SynchronousMotorSystem):
 
         i_sup = self._converter.i_sup(i_in_abc_e)
         u_sup = self._supply.get_voltage(self._t, i_sup)
-        u_in = self._converter.convert(i_in_abc_e, self._ode_solver.t)
+        u_in = self._converter.convert(i_in_abc_e, self._t + self._tau)
         u_in = [u * u_s for u in u_in for u_s in u_sup]
         u_dq_e = np.concatenate((self.abc_to_dq_space(u_in[:3], eps), u_in[3:]))
         self._ode_solver.set_f_params(u_dq_e)
@@ -783,7 +783,7 @@ class SquirrelCageInductionMotorSystem(ThreePhaseMotorSystem):
         for t in switching_times[:-1]:
             i_sup = self._converter.i_sup(i_in)
             u_sup = self._supply.get_voltage(self._t, i_sup)
-            u_in = self._converter.convert(i_in, self._ode_solver.t)
+            u_in = self._converter.convert(i_in, t)
             u_in = [u * u_s for u in u_in for u_s in u_sup]
             u_alphabeta = self.abc_to_alphabeta_space(u_in)
             self._ode_solver.set_f_params(u_alphabeta)
@@ -793,7 +793,7 @@ class SquirrelCageInductionMotorSystem(ThreePhaseMotorSystem):
 
         i_sup = self._converter.i_sup(i_in)
         u_sup = self._supply.get_voltage(self._t, i_sup)
-        u_in = self._converter.convert(i_in, self._ode_solver.t)
+        u_in = self._converter.convert(i_in, self._t + self._tau)
         u_in = [u * u_s for u in u_in for u_s in u_sup]
         u_dq = self.abc_to_dq_space(u_in, eps_fs)
         u_alphabeta = self.abc_to_alphabeta_space(u_in)
@@ -989,7 +989,7 @@ class DoublyFedInductionMotorSystem(ThreePhaseMotorSystem):
         for t in switching_times[:-1]:
             i_sup = self._converter.i_sup(np.concatenate((i_sabc, i_rdef)))
             u_sup = self._supply.get_voltage(self._t, i_sup)
-            u_in = self._converter.convert(np.concatenate([i_sabc, i_rdef]).tolist(), self._ode_solver.t)
+            u_in = self._converter.convert(np.concatenate([i_sabc, i_rdef]).tolist(), t)
             u_in = [u * u_s for u in u_in for u_s in u_sup]
             u_sabc = u_in[self.stator_voltage_low_idx : self.stator_voltage_high_idx]
             u_rdef = u_in[self.rotor_voltage_low_idx : self.rotor_voltage_high_idx]
@@ -1008,7 +1008,7 @@ class DoublyFedInductionMotorSystem(ThreePhaseMotorSystem):
 
         i_sup = self._converter.i_sup(np.concatenate((i_sabc, i_rdef)))
         u_sup = self._supply.get_voltage(self._t, i_sup)
-        u_in = self._converter.convert(np.concatenate([i_sabc, i_rdef]).tolist(), self._ode_solver.t)
+        u_in = self._converter.convert(np.concatenate([i_sabc, i_rdef]).tolist(), self._t + self._tau)
         u_in = [u * u_s for u in u_in for u_s in u_sup]
         u_sabc = u_in[self.stator_voltage_low_idx : self.stator_voltage_high_idx]
         u_rdef = u_in[self.rotor_voltage_low_idx : self.rotor_voltage_high_idx]
-- 
2.43.0


From 3ab2dc1abe96f703292835ff0c3e6b56366809a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:21 +0000
Subject: [PATCH 13/90] fix: determine the supply current from the current
 switching state

---
 .../physical_systems/physical_systems.py      | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/physical_systems.py b/src/gym_electric_motor/physical_systems/physical_systems.py
index 88b012e..e106098 100644
--- a/src/gym_electric_motor/physical_systems/physical_systems.py
+++ b/src/gym_electric_motor/physical_systems/physical_systems.py
@@ -175,17 +175,17 @@ class SCMLSystem(PhysicalSystem, RandomComponent):
         switching_times = self._converter.set_action(action, self._t)
 
         for t in switching_times[:-1]:
+            u_in = self._converter.convert(i_in, t)
             i_sup = self._converter.i_sup(i_in)
             u_sup = self._supply.get_voltage(self._t, i_sup)
-            u_in = self._converter.convert(i_in, t)
             u_in = [u * u_s for u in u_in for u_s in u_sup]
             self._ode_solver.set_f_params(u_in)
             ode_state = self._ode_solver.integrate(t)
             i_in = self._electrical_motor.i_in(ode_state[self._ode_currents_idx])
 
+        u_in = self._converter.convert(i_in, self._t + self.tau)
         i_sup = self._converter.i_sup(i_in)
         u_sup = self._supply.get_voltage(self._t, i_sup)
-        u_in = self._converter.convert(i_in, self._t + self.tau)
         u_in = [u * u_s for u in u_in for u_s in u_sup]
         self._ode_solver.set_f_params(u_in)
         ode_state = self._ode_solver.integrate(self._t + self.tau)
@@ -494,9 +494,9 @@ class SynchronousMotorSystem(ThreePhaseMotorSystem):
         switching_times = self._converter.set_action(action, self._t)
 
         for t in switching_times[:-1]:
+            u_in = self._converter.convert(i_in, t)
             i_sup = self._converter.i_sup(i_in)
             u_sup = self._supply.get_voltage(self._t, i_sup)
-            u_in = self._converter.convert(i_in, t)
             u_in = [u * u_s for u in u_in for u_s in u_sup]
             u_dq = self.abc_to_dq_space(u_in, eps)
             self._ode_solver.set_f_params(u_dq)
@@ -504,9 +504,9 @@ class SynchronousMotorSystem(ThreePhaseMotorSystem):
             eps = ode_state[self._ode_epsilon_idx]
             i_in = self.dq_to_abc_space(self._electrical_motor.i_in(ode_state[self._ode_currents_idx]), eps)
 
+        u_in = self._converter.convert(i_in, self._t + self._tau)
         i_sup = self._converter.i_sup(i_in)
         u_sup = self._supply.get_voltage(self._t, i_sup)
-        u_in = self._converter.convert(i_in, self._t + self._tau)
         u_in = [u * u_s for u in u_in for u_s in u_sup]
         u_dq = self.abc_to_dq_space(u_in, eps)
         self._ode_solver.set_f_params(u_dq)
@@ -625,9 +625,9 @@ class ExternallyExcitedSynchronousMotorSystem(SynchronousMotorSystem):
         switching_times = self._converter.set_action(action, self._t)
 
         for t in switching_times[:-1]:
+            u_in = self._converter.convert(i_in_abc_e, t)
             i_sup = self._converter.i_sup(i_in_abc_e)
             u_sup = self._supply.get_voltage(self._t, i_sup)
-            u_in = self._converter.convert(i_in_abc_e, t)
             u_in = [u * u_s for u in u_in for u_s in u_sup]
             u_dq_e = list(self.abc_to_dq_space(u_in[:2], eps)) + u_in[2:]
             self._ode_solver.set_f_params(u_dq_e)
@@ -636,9 +636,9 @@ class ExternallyExcitedSynchronousMotorSystem(SynchronousMotorSystem):
             i_in_dq_e = self._electrical_motor.i_in(ode_state[self._ode_currents_idx])
             i_in_abc_e = list(self.dq_to_abc_space(i_in_dq_e[:2], eps)) + i_in_dq_e[2:]
 
+        u_in = self._converter.convert(i_in_abc_e, self._t + self._tau)
         i_sup = self._converter.i_sup(i_in_abc_e)
         u_sup = self._supply.get_voltage(self._t, i_sup)
-        u_in = self._converter.convert(i_in_abc_e, self._t + self._tau)
         u_in = [u * u_s for u in u_in for u_s in u_sup]
         u_dq_e = np.concatenate((self.abc_to_dq_space(u_in[:3], eps), u_in[3:]))
         self._ode_solver.set_f_params(u_dq_e)
@@ -781,9 +781,9 @@ class SquirrelCageInductionMotorSystem(ThreePhaseMotorSystem):
         switching_times = self._converter.set_action(action, self._t)
 
         for t in switching_times[:-1]:
+            u_in = self._converter.convert(i_in, t)
             i_sup = self._converter.i_sup(i_in)
             u_sup = self._supply.get_voltage(self._t, i_sup)
-            u_in = self._converter.convert(i_in, t)
             u_in = [u * u_s for u in u_in for u_s in u_sup]
             u_alphabeta = self.abc_to_alphabeta_space(u_in)
             self._ode_solver.set_f_params(u_alphabeta)
@@ -791,9 +791,9 @@ class SquirrelCageInductionMotorSystem(ThreePhaseMotorSystem):
             eps_fs = self.calculate_field_angle(ode_state)
             i_in = self.alphabeta_to_abc_space(self._electrical_motor.i_in(ode_state[self._ode_currents_idx]))
 
+        u_in = self._converter.convert(i_in, self._t + self._tau)
         i_sup = self._converter.i_sup(i_in)
         u_sup = self._supply.get_voltage(self._t, i_sup)
-        u_in = self._converter.convert(i_in, self._t + self._tau)
         u_in = [u * u_s for u in u_in for u_s in u_sup]
         u_dq = self.abc_to_dq_space(u_in, eps_fs)
         u_alphabeta = self.abc_to_alphabeta_space(u_in)
@@ -987,9 +987,9 @@ class DoublyFedInductionMotorSystem(ThreePhaseMotorSystem):
         switching_times = self._converter.set_action(action, self._t)
 
         for t in switching_times[:-1]:
+            u_in = self._converter.convert(np.concatenate([i_sabc, i_rdef]).tolist(), t)
             i_sup = self._converter.i_sup(np.concatenate((i_sabc, i_rdef)))
             u_sup = self._supply.get_voltage(self._t, i_sup)
-            u_in = self._converter.convert(np.concatenate([i_sabc, i_rdef]).tolist(), t)
             u_in = [u * u_s for u in u_in for u_s in u_sup]
             u_sabc = u_in[self.stator_voltage_low_idx : self.stator_voltage_high_idx]
             u_rdef = u_in[self.rotor_voltage_low_idx : self.rotor_voltage_high_idx]
@@ -1006,9 +1006,9 @@ class DoublyFedInductionMotorSystem(ThreePhaseMotorSystem):
             i_sabc = self.alphabeta_to_abc_space(self._electrical_motor.i_in(ode_state[self._ode_currents_idx]))
             i_rdef = self.alphabeta_to_abc_space(self.calculate_rotor_current(ode_state))
 
+        u_in = self._converter.convert(np.concatenate([i_sabc, i_rdef]).tolist(), self._t + self._tau)
         i_sup = self._converter.i_sup(np.concatenate((i_sabc, i_rdef)))
         u_sup = self._supply.get_voltage(self._t, i_sup)
-        u_in = self._converter.convert(np.concatenate([i_sabc, i_rdef]).tolist(), self._t + self._tau)
         u_in = [u * u_s for u in u_in for u_s in u_sup]
         u_sabc = u_in[self.stator_voltage_low_idx : self.stator_voltage_high_idx]
         u_rdef = u_in[self.rotor_voltage_low_idx : self.rotor_voltage_high_idx]
-- 
2.43.0


From dd161120a667f821bd2a7b343c6d9df3fd477dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:44 +0000
Subject: [PATCH 14/90] fix: draw the initial field angle of the induction
 motors from the episode generator

---
 .../electric_motors/doubly_fed_induction_motor.py               | 2 +-
 .../electric_motors/squirrel_cage_induction_motor.py            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py
index 1eebccc..bc83a0b 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py
@@ -154,7 +154,7 @@ class DoublyFedInductionMotor(InductionMotor):
     def _update_initial_limits(self, nominal_new={}, omega=None):
         # Docstring of superclass
         # draw a sample magnetic field angle from [-pi,pi]
-        eps_mag = 2 * np.pi * np.random.random_sample() - np.pi
+        eps_mag = 2 * np.pi * self.random_generator.random() - np.pi
         flux_alphabeta_limits = self._flux_limit(
             omega=omega,
             eps_mag=eps_mag,
diff --git a/src/gym_electric_motor/physical_systems/electric_motors/squirrel_cage_induction_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/squirrel_cage_induction_motor.py
index 7730357..a120898 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/squirrel_cage_induction_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/squirrel_cage_induction_motor.py
@@ -146,7 +146,7 @@ class SquirrelCageInductionMotor(InductionMotor):
     def _update_initial_limits(self, nominal_new={}, omega=None):
         # Docstring of superclass
         # draw a sample magnetic field angle from [-pi,pi]
-        eps_mag = 2 * np.pi * np.random.random_sample() - np.pi
+        eps_mag = 2 * np.pi * self.random_generator.random() - np.pi
         flux_alphabeta_limits = self._flux_limit(omega=omega, eps_mag=eps_mag, u_q_max=self._nominal_values["u_sq"])
         # using absolute value, because limits should describe upper limit
         # after abs-operator, norm of alphabeta flux still equal to
-- 
2.43.0


From c7054db4afc651e068f5f71c732108b37fbbfe6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:55 +0000
Subject: [PATCH 15/90] fix: do not extend the io quantities of all induction
 motors by the rotor quantities

---
 .../electric_motors/doubly_fed_induction_motor.py             | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py
index bc83a0b..7bd06d8 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py
@@ -128,8 +128,8 @@ class DoublyFedInductionMotor(InductionMotor):
     }
 
     def __init__(self, **kwargs):
-        self.IO_VOLTAGES += self.IO_ROTOR_VOLTAGES
-        self.IO_CURRENTS += self.IO_ROTOR_CURRENTS
+        self.IO_VOLTAGES = self.IO_VOLTAGES + self.IO_ROTOR_VOLTAGES
+        self.IO_CURRENTS = self.IO_CURRENTS + self.IO_ROTOR_CURRENTS
         super().__init__(**kwargs)
 
     def _update_limits(self, limit_values={}, nominal_values={}):
-- 
2.43.0


From 1a70c3bd4353f60688187e5a01399bc3a867b5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:55 +0000
Subject: [PATCH 16/90] fix: make the switched references independent of the
 length of previous episodes

---
 .../reference_generators/switched_reference_generator.py      | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gym_electric_motor/reference_generators/switched_reference_generator.py b/src/gym_electric_motor/reference_generators/switched_reference_generator.py
index bb6d585..9db2283 100644
--- a/src/gym_electric_motor/reference_generators/switched_reference_generator.py
+++ b/src/gym_electric_motor/reference_generators/switched_reference_generator.py
@@ -64,6 +64,10 @@ class SwitchedReferenceGenerator(ReferenceGenerator, RandomComponent):
 
     def reset(self, initial_state=None, initial_reference=None):
         self.next_generator()
+        # The number of sub generator resets depends on the length of the previous episode.
+        for sub_generator in self._sub_generators:
+            if isinstance(sub_generator, RandomComponent):
+                sub_generator.seed(self._seed_sequence.spawn(1)[0])
         self._reset_reference()
         return self._current_ref_generator.reset(initial_state, initial_reference)
 
-- 
2.43.0


From 598637a8bbaf1bb1d3d970662fec89028fe1ac42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:08 +0000
Subject: [PATCH 17/90] fix: draw the initial wiener reference from the
 generator of the new episode

---
 .../reference_generators/wiener_process_reference_generator.py   | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gym_electric_motor/reference_generators/wiener_process_reference_generator.py b/src/gym_electric_motor/reference_generators/wiener_process_reference_generator.py
index 1e5aa1e..861f421 100644
--- a/src/gym_electric_motor/reference_generators/wiener_process_reference_generator.py
+++ b/src/gym_electric_motor/reference_generators/wiener_process_reference_generator.py
@@ -42,6 +42,7 @@ class WienerProcessReferenceGenerator(SubepisodedReferenceGenerator):
 
     def reset(self, initial_state=None, initial_reference=None):
         if initial_reference is None:
+            self.next_generator()
             initial_reference = np.zeros_like(self._referenced_states, dtype=float)
             initial_reference[self._referenced_states] = self.random_generator.uniform(
                 self._initial_range[0], self._initial_range[1], 1
-- 
2.43.0


From 74e0100a15f240bd526add773b0a904d8ac16511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:10 +0000
Subject: [PATCH 18/90] fix: merge the violation degrees with the product

---
 src/gym_electric_motor/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/core.py b/src/gym_electric_motor/core.py
index 9ab7e69..a5255b9 100644
--- a/src/gym_electric_motor/core.py
+++ b/src/gym_electric_motor/core.py
@@ -816,7 +816,7 @@ class ConstraintMonitor:
             self._merge_violations = max
         elif merge_violations == "product":
 
-            def product_merge(*violation_degrees):
+            def product_merge(violation_degrees):
                 return 1 - np.prod([(1 - violation) for violation in violation_degrees])
 
             self._merge_violations = product_merge
-- 
2.43.0


From c96ffbdd60fd1442886e4c5e385a5dcaf0d8274b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:19 +0000
Subject: [PATCH 19/90] fix: do not drop the constraints that are passed as
 functions

---
 src/gym_electric_motor/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/core.py b/src/gym_electric_motor/core.py
index a5255b9..ed57770 100644
--- a/src/gym_electric_motor/core.py
+++ b/src/gym_electric_motor/core.py
@@ -258,7 +258,7 @@ class ElectricMotorEnvironment(gymnasium.core.Env):
             cm = constraints
         else:
             limit_constraints = [constraint for constraint in constraints if isinstance(constraint, str)]
-            additional_constraints = [constraint for constraint in constraints if isinstance(constraint, Constraint)]
+            additional_constraints = [constraint for constraint in constraints if not isinstance(constraint, str)]
             cm = ConstraintMonitor(limit_constraints, additional_constraints)
         self._constraint_monitor = cm
 
-- 
2.43.0


From 3116a32a64cc96799515a32e174e04be64b54000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:30 +0000
Subject: [PATCH 20/90] fix: remove the angle from the initial state of the
 CosSinProcessor

---
 .../physical_system_wrappers/cos_sin_processor.py               | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gym_electric_motor/physical_system_wrappers/cos_sin_processor.py b/src/gym_electric_motor/physical_system_wrappers/cos_sin_processor.py
index ec875f3..4420554 100644
--- a/src/gym_electric_motor/physical_system_wrappers/cos_sin_processor.py
+++ b/src/gym_electric_motor/physical_system_wrappers/cos_sin_processor.py
@@ -52,6 +52,8 @@ class CosSinProcessor(PhysicalSystemWrapper):
     def reset(self):
         # Docstring of super class
         state = self._physical_system.reset()
+        if self._remove_angle:
+            return self._delete_angle(self._get_cos_sin(state))
         return self._get_cos_sin(state)
 
     def simulate(self, action):
-- 
2.43.0


From dbf905607e9b5cce2522924aaf5c1da8f6bd5154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:38 +0000
Subject: [PATCH 21/90] fix: use valid reset actions for multi discrete action
 spaces in the DeadTimeProcessor

---
 .../physical_system_wrappers/dead_time_processor.py             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py b/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py
index 44c7090..302a37f 100644
--- a/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py
+++ b/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py
@@ -49,7 +49,7 @@ class DeadTimeProcessor(PhysicalSystemWrapper):
             if isinstance(action_space, gymnasium.spaces.Discrete):
                 reset_action = 0
             elif isinstance(action_space, gymnasium.spaces.MultiDiscrete):
-                reset_action = [np.zeros_like(action_space.nvec)]
+                reset_action = np.zeros_like(action_space.nvec)
             elif isinstance(action_space, gymnasium.spaces.Box):
                 reset_action = np.zeros(action_space.shape, dtype=np.float64)
             else:
-- 
2.43.0


From 27d04c7c18e269c283cd5c1562ac0f954b1f8ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:06 +0000
Subject: [PATCH 22/90] fix: store a copy of the delayed actions in the
 DeadTimeProcessor

---
 .../physical_system_wrappers/dead_time_processor.py            | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py b/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py
index 302a37f..0c11f72 100644
--- a/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py
+++ b/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py
@@ -1,4 +1,5 @@
 from collections import deque
+from copy import copy
 
 import gymnasium.spaces
 import numpy as np
@@ -81,5 +82,5 @@ class DeadTimeProcessor(PhysicalSystemWrapper):
             numpy.ndarray[float]: The next state of the system.
         """
         active_action = self._action_deque.pop()
-        self._action_deque.appendleft(action)
+        self._action_deque.appendleft(copy(action))
         return self._physical_system.simulate(active_action)
-- 
2.43.0


From ceea2b52e57692043260db57edc3b483f66b1cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:30 +0000
Subject: [PATCH 23/90] fix: evaluate the substeps of the EulerSolver at the
 correct times

---
 src/gym_electric_motor/physical_systems/solvers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/solvers.py b/src/gym_electric_motor/physical_systems/solvers.py
index 31748df..88a863a 100644
--- a/src/gym_electric_motor/physical_systems/solvers.py
+++ b/src/gym_electric_motor/physical_systems/solvers.py
@@ -112,9 +112,9 @@ class EulerSolver(OdeSolver):
         """
         tau = (t - self._t) / self._nsteps
         state = self._y
-        current_t = t
+        current_t = self._t
         for _ in range(self._nsteps):
-            delta = self._system_equation(current_t + tau, state, *self._f_params) * tau
+            delta = self._system_equation(current_t, state, *self._f_params) * tau
             state = state + delta
             current_t += tau
         self._y = state
-- 
2.43.0


From 7ed38bec502ca060dfa999cf2e98739adb5e5f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:29 +0000
Subject: [PATCH 24/90] fix: do not share the derivative array of the system
 with the ode solvers

---
 src/gym_electric_motor/physical_systems/physical_systems.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_systems/physical_systems.py b/src/gym_electric_motor/physical_systems/physical_systems.py
index e106098..6c18921 100644
--- a/src/gym_electric_motor/physical_systems/physical_systems.py
+++ b/src/gym_electric_motor/physical_systems/physical_systems.py
@@ -233,7 +233,8 @@ class SCMLSystem(PhysicalSystem, RandomComponent):
                 motor_state, u_in, state[self._omega_ode_idx]
             ).ravel()
 
-        return self._system_eq_placeholder
+        # The solvers may keep the derivative between the calls.
+        return self._system_eq_placeholder.copy()
 
     def _system_jacobian(self, t, state, u_in, **__):
         motor_state = state[self._motor_ode_idx]
-- 
2.43.0


From 4f13ce5f0d5419f169b0ab698e7f85080b9c17f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:46 +0000
Subject: [PATCH 25/90] fix: do not share the ode input array between the
 permanently excited dc motors

---
 .../electric_motors/dc_permanently_excited_motor.py       | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/dc_permanently_excited_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/dc_permanently_excited_motor.py
index 6727bc7..b3aa0a9 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/dc_permanently_excited_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/dc_permanently_excited_motor.py
@@ -61,9 +61,6 @@ class DcPermanentlyExcitedMotor(DcMotor):
         "random_params": (None, None),
     }
 
-    # placeholder for omega, currents and u_in
-    _ode_placeholder = np.zeros(2 + len(CURRENTS_IDX), dtype=np.float64)
-
     def torque(self, state):
         # Docstring of superclass
         return self._motor_parameter["psi_e"] * state[self.I_IDX]
@@ -80,8 +77,9 @@ class DcPermanentlyExcitedMotor(DcMotor):
 
     def electrical_ode(self, state, u_in, omega, *_):
         # Docstring of superclass
-        self._ode_placeholder[:] = [omega] + np.atleast_1d(state[self.I_IDX]).tolist() + [u_in[0]]
-        return np.matmul(self._model_constants, self._ode_placeholder)
+        # omega, currents and u_in
+        ode_input = np.array([omega] + np.atleast_1d(state[self.I_IDX]).tolist() + [u_in[0]], dtype=np.float64)
+        return np.matmul(self._model_constants, ode_input)
 
     def electrical_jacobian(self, state, u_in, omega, *_):
         mp = self._motor_parameter
-- 
2.43.0


From b004be764fa66e40410360157225628de45b15ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 26/90] fix: transform the voltages and currents of the EESM
 correctly during the interlocking time

---
 src/gym_electric_motor/physical_systems/physical_systems.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/physical_systems.py b/src/gym_electric_motor/physical_systems/physical_systems.py
index 6c18921..10d7494 100644
--- a/src/gym_electric_motor/physical_systems/physical_systems.py
+++ b/src/gym_electric_motor/physical_systems/physical_systems.py
@@ -630,12 +630,12 @@ class ExternallyExcitedSynchronousMotorSystem(SynchronousMotorSystem):
             i_sup = self._converter.i_sup(i_in_abc_e)
             u_sup = self._supply.get_voltage(self._t, i_sup)
             u_in = [u * u_s for u in u_in for u_s in u_sup]
-            u_dq_e = list(self.abc_to_dq_space(u_in[:2], eps)) + u_in[2:]
+            u_dq_e = np.concatenate((self.abc_to_dq_space(u_in[:3], eps), u_in[3:]))
             self._ode_solver.set_f_params(u_dq_e)
             ode_state = self._ode_solver.integrate(t)
             eps = ode_state[self._ode_epsilon_idx]
             i_in_dq_e = self._electrical_motor.i_in(ode_state[self._ode_currents_idx])
-            i_in_abc_e = list(self.dq_to_abc_space(i_in_dq_e[:2], eps)) + i_in_dq_e[2:]
+            i_in_abc_e = list(self.dq_to_abc_space(i_in_dq_e[:2], eps)) + list(i_in_dq_e[2:])
 
         u_in = self._converter.convert(i_in_abc_e, self._t + self._tau)
         i_sup = self._converter.i_sup(i_in_abc_e)
-- 
2.43.0


From 010aa21dc6f97c67e05bf9548a2fa73f43ab61e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:15 +0000
Subject: [PATCH 27/90] fix: transform the initial rotor currents of the DFIM
 like in the simulation

---
 src/gym_electric_motor/physical_systems/physical_systems.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_systems/physical_systems.py b/src/gym_electric_motor/physical_systems/physical_systems.py
index 10d7494..010077e 100644
--- a/src/gym_electric_motor/physical_systems/physical_systems.py
+++ b/src/gym_electric_motor/physical_systems/physical_systems.py
@@ -1088,7 +1088,7 @@ class DoublyFedInductionMotorSystem(ThreePhaseMotorSystem):
         i_sdq = self.alphabeta_to_dq_space(ode_state[self._ode_currents_idx], eps_field)
         i_sabc = self.dq_to_abc_space(i_sdq, eps_field)
 
-        i_rdq = self.alphabeta_to_dq_space(self.calculate_rotor_current(ode_state), eps_field - eps_el)
+        i_rdq = self.alphabeta_to_dq_space(self.calculate_rotor_current(ode_state), eps_field)
         i_rdef = self.dq_to_abc_space(i_rdq, eps_field - eps_el)
 
         torque = self.electrical_motor.torque(motor_state)
-- 
2.43.0


From 4fe514612e78cc4d0f4fc71db4060bc351e81acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:55 +0000
Subject: [PATCH 28/90] fix: do not share the simulation parameters between the
 environments

---
 src/gym_electric_motor/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/core.py b/src/gym_electric_motor/core.py
index ed57770..4f8ff9e 100644
--- a/src/gym_electric_motor/core.py
+++ b/src/gym_electric_motor/core.py
@@ -231,7 +231,7 @@ class ElectricMotorEnvironment(gymnasium.core.Env):
             **kwargs: Arguments to be passed to the modules.
         """
 
-        self.sim.tau = physical_system.tau
+        self.sim = SimulationEnvironment(tau=physical_system.tau)
 
         # TODO physical_system etc should be initialized by the caller
         self._physical_system = physical_system(**kwargs) if isinstance(physical_system, type) else physical_system
-- 
2.43.0


From 66680c042702bc9e8eb7d7fb9ee6b6f7a8dde607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:20 +0000
Subject: [PATCH 29/90] fix: clip the reference vectors of the controllers to
 the limit and its margin

---
 .../stages/clipping_stages/combined_clipping_stage.py    | 9 +++++----
 .../stages/clipping_stages/squared_clipping_stage.py     | 7 ++++---
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/gem_controllers/stages/clipping_stages/combined_clipping_stage.py b/src/gem_controllers/stages/clipping_stages/combined_clipping_stage.py
index 8396bc3..d0327d2 100644
--- a/src/gem_controllers/stages/clipping_stages/combined_clipping_stage.py
+++ b/src/gem_controllers/stages/clipping_stages/combined_clipping_stage.py
@@ -35,12 +35,13 @@ class CombinedClippingStage(ClippingStage):
 
     def __call__(self, state, reference):
         clipped = np.zeros(np.size(self._squared_clipped_states) + np.size(self._absolute_clipped_states))
-        relative_reference_length = np.sum((reference[self._squared_clipped_states] / self._limit_squred_clipping) ** 2)
-        relative_maximum = 1 - self._margin
+        relative_reference_length = np.sqrt(
+            np.sum((reference[self._squared_clipped_states] / self._limit_squred_clipping) ** 2)
+        )
         clipped[self._squared_clipped_states] = (
             reference[self._squared_clipped_states]
-            if relative_reference_length < relative_maximum**2
-            else reference[self._squared_clipped_states] / relative_reference_length * relative_maximum
+            if relative_reference_length < 1
+            else reference[self._squared_clipped_states] / relative_reference_length
         )
 
         clipped[self._absolute_clipped_states] = np.clip(
diff --git a/src/gem_controllers/stages/clipping_stages/squared_clipping_stage.py b/src/gem_controllers/stages/clipping_stages/squared_clipping_stage.py
index d7fede1..4424206 100644
--- a/src/gem_controllers/stages/clipping_stages/squared_clipping_stage.py
+++ b/src/gem_controllers/stages/clipping_stages/squared_clipping_stage.py
@@ -26,7 +26,7 @@ class SquaredClippingStage(ClippingStage):
     @property
     def action_range(self):
         """Action range of the controller stage"""
-        return []
+        return -self._limits * (1 - self._margin), self._limits * (1 - self._margin)
 
     def __init__(self, control_task="CC"):
         """
@@ -51,11 +51,11 @@ class SquaredClippingStage(ClippingStage):
             clipped_reference(np.ndarray): The reference of a controller stage clipped to the limit.
         """
 
-        relative_reference_length = np.sum((reference / self._limits) ** 2)
+        relative_reference_length = np.sqrt(np.sum((reference / self._limits) ** 2))
         relative_maximum = 1 - self._margin
         clipped = (
             reference
-            if relative_reference_length < relative_maximum**2
+            if relative_reference_length < relative_maximum
             else reference / relative_reference_length * relative_maximum
         )
         self._clipping_difference = reference - clipped
@@ -81,6 +81,7 @@ class SquaredClippingStage(ClippingStage):
             state_names = ["torque"]
         state_indices = [env.state_names.index(state_name) for state_name in state_names]
         self._limits = env.limits[state_indices]
+        self._margin = margin
 
     def reset(self):
         """Reset the squared clipping stage"""
-- 
2.43.0


From 5a2f1159c68f64485cd241028ceac34ccdb41bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:29 +0000
Subject: [PATCH 30/90] fix: return the clipped voltages from the current
 controller

---
 src/gem_controllers/pi_current_controller.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gem_controllers/pi_current_controller.py b/src/gem_controllers/pi_current_controller.py
index b43e710..f9f8f8a 100644
--- a/src/gem_controllers/pi_current_controller.py
+++ b/src/gem_controllers/pi_current_controller.py
@@ -163,7 +163,8 @@ class PICurrentController(gc.CurrentController):
             voltage_reference = self._emf_feedforward(state, voltage_reference)
 
         # Clip the voltage inputs to the action space
-        self._voltage_reference = self._clipping_stage(state, voltage_reference)
+        voltage_reference = self._clipping_stage(state, voltage_reference)
+        self._voltage_reference = voltage_reference
 
         # Transform the voltages in the correct coordinate system
         if self._coordinate_transformation_required:
-- 
2.43.0


From 8d458c1a530373135c1efeb69f40472adbaef0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:36 +0000
Subject: [PATCH 31/90] fix: read the resistance for the current limitation of
 the PermExDc torque control

---
 .../stages/operation_point_selection/permex_dc_ops.py          | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/permex_dc_ops.py b/src/gem_controllers/stages/operation_point_selection/permex_dc_ops.py
index aaafc52..1bc9f3f 100644
--- a/src/gem_controllers/stages/operation_point_selection/permex_dc_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/permex_dc_ops.py
@@ -71,7 +71,7 @@ class PermExDcOperationPointSelection(OperationPointSelection):
 
     def _max_current_per_speed(self, state):
         """Calculate the maximum current for a given speed."""
-        return self._voltage_limit / (self._resistance + self._magnetic_flux * abs(state[self._omega_index]))
+        return (self._voltage_limit - self._magnetic_flux * abs(state[self._omega_index])) / self._resistance
 
     def tune(self, env, env_id, current_safety_margin=0.2):
         """
@@ -85,6 +85,7 @@ class PermExDcOperationPointSelection(OperationPointSelection):
         super().tune(env, env_id, current_safety_margin=current_safety_margin)
         motor = gc.utils.get_motor_type(env_id)
         self._magnetic_flux = reader.psi_reader[motor](env)
+        self._resistance = reader.r_reader[motor](env)
         voltages = reader.voltages[motor]
         voltage_indices = [env.state_names.index(voltage) for voltage in voltages]
         self._voltage_limit = env.limits[voltage_indices]
-- 
2.43.0


From ef74a8d76ffc1ae50de2d0de6aa01f814a47d3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:07 +0000
Subject: [PATCH 32/90] fix: do not use the removed np.complex

---
 .../stages/operation_point_selection/eesm_ops.py              | 2 +-
 .../stages/operation_point_selection/pmsm_ops.py              | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/eesm_ops.py b/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
index 3e84c95..5217547 100644
--- a/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
@@ -181,7 +181,7 @@ class EESMOperationPointSelection(FieldOrientedControllerOperationPointSelection
         self.i_e_opt = sp_interpolate.interp1d(best_params[:, 0], best_params[:, 4], kind="cubic")
 
         self.t_grid, self.psi_grid = np.mgrid[
-            0 : self.t_max : np.complex(0, self.t_grid_count), 0 : self.psi_max : np.complex(self.psi_grid_count)
+            0 : self.t_max : complex(0, self.t_grid_count), 0 : self.psi_max : complex(self.psi_grid_count)
         ]
 
         self.i_d_inter = sp_interpolate.griddata(
diff --git a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
index 6a828b1..ac7970a 100644
--- a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
@@ -236,8 +236,8 @@ class PMSMOperationPointSelection(FieldOrientedControllerOperationPointSelection
 
             # Define the grid for the torque and fluxes
             self.t_grid, self.psi_grid = np.mgrid[
-                np.amin(t) : np.amax(t) : np.complex(0, self.t_count),
-                self.psi_min : self.psi_max : np.complex(self.psi_count),
+                np.amin(t) : np.amax(t) : complex(0, self.t_count),
+                self.psi_min : self.psi_max : complex(self.psi_count),
             ]
 
             # Interpolate the functions
-- 
2.43.0


From 7466457427eabb9e3875ed83d57809919e2f1e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:15 +0000
Subject: [PATCH 33/90] fix: tune and reset the P and PID base controllers of
 the cascade

---
 src/gem_controllers/parameter_reader.py                    | 6 ++++--
 .../stages/base_controllers/p_controller.py                | 5 +++--
 .../stages/base_controllers/pid_controller.py              | 7 ++++++-
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/gem_controllers/parameter_reader.py b/src/gem_controllers/parameter_reader.py
index 7f4f626..9bfca39 100644
--- a/src/gem_controllers/parameter_reader.py
+++ b/src/gem_controllers/parameter_reader.py
@@ -180,8 +180,10 @@ tau_current_loop_reader = {
         ]
     ),
     "PermExDc": lambda env: np.array(
-        env.physical_system.electrical_motor.motor_parameter["l_a"]
-        / env.physical_system.electrical_motor.motor_parameter["r_a"]
+        [
+            env.physical_system.electrical_motor.motor_parameter["l_a"]
+            / env.physical_system.electrical_motor.motor_parameter["r_a"]
+        ]
     ),
     "PMSM": lambda env: np.array(
         [
diff --git a/src/gem_controllers/stages/base_controllers/p_controller.py b/src/gem_controllers/stages/base_controllers/p_controller.py
index 57d1f2b..b76b334 100644
--- a/src/gem_controllers/stages/base_controllers/p_controller.py
+++ b/src/gem_controllers/stages/base_controllers/p_controller.py
@@ -80,7 +80,7 @@ class PController(BaseController):
         """
         return self._control(state[self._state_indices], reference)
 
-    def tune(self, env, env_id, a=4):
+    def tune(self, env, env_id, a=4, t_n=None):
         """
         Tune the controller for the desired control task.
 
@@ -88,12 +88,13 @@ class PController(BaseController):
             env(ElectricMotorEnvironment): The GEM-Environment that the controller shall be created for.
             env_id(str): The corresponding environment-id to specify the concrete environment.
             a(float): Design parameter of the symmetrical optimum.
+            t_n(float): Time constant of the underlying controller stage.
         """
 
         if self._control_task == EBaseControllerTask.CurrentControl:
             self._tune_current_controller(env, env_id, a)
         elif self._control_task == EBaseControllerTask.SpeedControl:
-            self._tune_speed_controller(env, env_id, a)
+            self._tune_speed_controller(env, env_id, a, t_n)
         else:
             raise Exception(f"No Tuner available for control task{self._control_task}.")
 
diff --git a/src/gem_controllers/stages/base_controllers/pid_controller.py b/src/gem_controllers/stages/base_controllers/pid_controller.py
index f91f609..4cabde3 100644
--- a/src/gem_controllers/stages/base_controllers/pid_controller.py
+++ b/src/gem_controllers/stages/base_controllers/pid_controller.py
@@ -42,6 +42,11 @@ class PIDController(PIController):
         self._last_error = current_error
         return pi_action + d_action
 
+    def reset(self):
+        """Reset the integrated values and the last error"""
+        super().reset()
+        self._last_error = np.zeros_like(self._d_gain, dtype=float)
+
     def _tune_current_controller(self, env, env_id, a=4):
         """Set the gains of the P-, I- and D-component for the current control.
 
@@ -64,5 +69,5 @@ class PIDController(PIController):
             t_n(float): Time constant of the underlying torque controller.
         """
 
-        super()._tune_speed_controller(env, env_id, a)
+        super()._tune_speed_controller(env, env_id, a, t_n)
         self.d_gain = self.p_gain * self.tau
-- 
2.43.0


From 3d2d94e286f8739c8194e264d4a949867b8eaf04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:24 +0000
Subject: [PATCH 34/90] fix: make the three point controllers tunable

---
 .../stages/base_controllers/three_point_controller.py      | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/gem_controllers/stages/base_controllers/three_point_controller.py b/src/gem_controllers/stages/base_controllers/three_point_controller.py
index e20f77d..583da3f 100644
--- a/src/gem_controllers/stages/base_controllers/three_point_controller.py
+++ b/src/gem_controllers/stages/base_controllers/three_point_controller.py
@@ -93,13 +93,14 @@ class ThreePointController(BaseController):
         low_actions = referenced_states - self._hysteresis > reference
         return np.select([low_actions, high_actions], [self._low_action, self._high_action], default=self._idle_action)
 
-    def tune(self, env, env_id, **base_controller_kwargs):
+    def tune(self, env, env_id, a=4, **base_controller_kwargs):
         """
         Tune a three point controller stage.
 
         Args:
             env(ElectricMotorEnvironment): The GEM-Environment that the controller shall be created for.
             env_id(str): The corresponding environment-id to specify the concrete environment.
+            a(float): Design parameter of the symmetrical optimum (not required by the three point controller).
         """
 
         if self._control_task == EBaseControllerTask.SC:
@@ -146,9 +147,9 @@ class ThreePointController(BaseController):
             _env_id(str): The corresponding environment-id to specify the concrete environment.
         """
 
-        torque_index = [env.state_names.index("reference")]
+        torque_index = [env.state_names.index("torque")]
         torque_limit = env.limits[torque_index]
-        self.referenced_state_indices = torque_index
+        self.referenced_state_indices = [env.state_names.index("omega")]
         action_range = (
             env.observation_space[0].low[torque_index] * torque_limit,
             env.observation_space[0].high[torque_index] * torque_limit,
-- 
2.43.0


From 4d922b8ae496dd15826bb2ca83e225b073a02a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:25 +0000
Subject: [PATCH 35/90] fix: do not share the flux controller between the SCIM
 operation point selections

---
 .../stages/operation_point_selection/scim_ops.py              | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/scim_ops.py b/src/gem_controllers/stages/operation_point_selection/scim_ops.py
index 16d2707..8ac7154 100644
--- a/src/gem_controllers/stages/operation_point_selection/scim_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/scim_ops.py
@@ -19,7 +19,7 @@ class SCIMOperationPointSelection(FieldOrientedControllerOperationPointSelection
         self,
         max_modulation_level: float = 2 / np.sqrt(3),
         modulation_damping: float = 1.2,
-        psi_controller=PIController(control_task="FC"),
+        psi_controller=None,
     ):
         """
         Args:
@@ -40,7 +40,7 @@ class SCIMOperationPointSelection(FieldOrientedControllerOperationPointSelection
         self.i_sd_count = None
         self.i_sq_count = None
 
-        self.psi_controller = psi_controller
+        self.psi_controller = psi_controller if psi_controller is not None else PIController(control_task="FC")
 
     def _psi_opt(self):
         """Calculate the optimal flux for a given torque"""
-- 
2.43.0


From 90ba88d0a247f2e157d39189a219ba258c67b5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:41 +0000
Subject: [PATCH 36/90] fix: select the d current that belongs to the minimal
 losses of the SCIM

---
 .../stages/operation_point_selection/scim_ops.py                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/scim_ops.py b/src/gem_controllers/stages/operation_point_selection/scim_ops.py
index 8ac7154..54c4385 100644
--- a/src/gem_controllers/stages/operation_point_selection/scim_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/scim_ops.py
@@ -59,7 +59,7 @@ class SCIMOperationPointSelection(FieldOrientedControllerOperationPointSelection
                 )  # Calculate losses
 
                 i_idx = np.argmin(pv)  # Minimize losses
-                i_sd_opt = i_sd[i_idx]
+                i_sd_opt = i_sd[i_idx + 1]
                 i_sq_opt = i_sq[i_idx]
             else:
                 i_sq_opt = 0
-- 
2.43.0


From 102e09c8dfd027b8e801caacd78f2231b248048e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:52 +0000
Subject: [PATCH 37/90] fix: use the sampling time of the environment for the
 angle advance of the controllers

---
 src/gem_controllers/stages/abc_transformation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gem_controllers/stages/abc_transformation.py b/src/gem_controllers/stages/abc_transformation.py
index 59d51ec..c153ec8 100644
--- a/src/gem_controllers/stages/abc_transformation.py
+++ b/src/gem_controllers/stages/abc_transformation.py
@@ -73,6 +73,7 @@ class AbcTransformation(Stage):
         else:
             self.angle_idx = env.state_names.index("epsilon")
         self.omega_idx = env.state_names.index("omega")
+        self.tau = env.physical_system.tau
         if hasattr(env.physical_system.converter, "dead_time"):
             self._advance_factor = 1.5 if env.physical_system.converter.dead_time else 0.5
         else:
-- 
2.43.0


From d727606b23bcdeca74ba81544f88f98274d4cabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:45 +0000
Subject: [PATCH 38/90] fix: do not share the default constraints between the
 environments

---
 src/gym_electric_motor/core.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/core.py b/src/gym_electric_motor/core.py
index 4f8ff9e..5da485e 100644
--- a/src/gym_electric_motor/core.py
+++ b/src/gym_electric_motor/core.py
@@ -18,6 +18,7 @@ Each ElectricMotorEnvironment contains the five following modules:
 
 """
 
+import copy
 import datetime
 import os
 from dataclasses import dataclass
@@ -258,7 +259,12 @@ class ElectricMotorEnvironment(gymnasium.core.Env):
             cm = constraints
         else:
             limit_constraints = [constraint for constraint in constraints if isinstance(constraint, str)]
-            additional_constraints = [constraint for constraint in constraints if not isinstance(constraint, str)]
+            # The constraints are copied, because the (default) instances might be passed to several environments
+            additional_constraints = [
+                copy.copy(constraint) if isinstance(constraint, Constraint) else constraint
+                for constraint in constraints
+                if not isinstance(constraint, str)
+            ]
             cm = ConstraintMonitor(limit_constraints, additional_constraints)
         self._constraint_monitor = cm
 
-- 
2.43.0


From 447b3aec4699b17745cf9630e42447940e7fd324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:03 +0000
Subject: [PATCH 39/90] fix: DFIM hands the rotor currents to the rotor
 converter in the rotor-fixed frame

---
 .../physical_systems/physical_systems.py               | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/physical_systems.py b/src/gym_electric_motor/physical_systems/physical_systems.py
index 010077e..5ab281f 100644
--- a/src/gym_electric_motor/physical_systems/physical_systems.py
+++ b/src/gym_electric_motor/physical_systems/physical_systems.py
@@ -984,7 +984,10 @@ class DoublyFedInductionMotorSystem(ThreePhaseMotorSystem):
         eps_el = ode_state[self._ode_epsilon_idx]
 
         i_sabc = self.alphabeta_to_abc_space(self._electrical_motor.i_in(ode_state[self._ode_currents_idx]))
-        i_rdef = self.alphabeta_to_abc_space(self.calculate_rotor_current(ode_state))
+        # The rotor converter carries the currents of the rotor-fixed reference frame
+        i_rdef = self.alphabeta_to_abc_space(
+            self.alphabeta_to_dq_space(self.calculate_rotor_current(ode_state), eps_el)
+        )
         switching_times = self._converter.set_action(action, self._t)
 
         for t in switching_times[:-1]:
@@ -1005,7 +1008,10 @@ class DoublyFedInductionMotorSystem(ThreePhaseMotorSystem):
             eps_field = self.calculate_field_angle(ode_state)
             eps_el = ode_state[self._ode_epsilon_idx]
             i_sabc = self.alphabeta_to_abc_space(self._electrical_motor.i_in(ode_state[self._ode_currents_idx]))
-            i_rdef = self.alphabeta_to_abc_space(self.calculate_rotor_current(ode_state))
+            # The rotor converter carries the currents of the rotor-fixed reference frame
+            i_rdef = self.alphabeta_to_abc_space(
+                self.alphabeta_to_dq_space(self.calculate_rotor_current(ode_state), eps_el)
+            )
 
         u_in = self._converter.convert(np.concatenate([i_sabc, i_rdef]).tolist(), self._t + self._tau)
         i_sup = self._converter.i_sup(np.concatenate((i_sabc, i_rdef)))
-- 
2.43.0


From 74352d17dd08b2be9debd3037e245c0806eda77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:13 +0000
Subject: [PATCH 40/90] fix: the reference names of the ConstReferenceGenerator
 are a list

---
 .../reference_generators/const_reference_generator.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/reference_generators/const_reference_generator.py b/src/gym_electric_motor/reference_generators/const_reference_generator.py
index 82cd42a..c2f8f84 100644
--- a/src/gym_electric_motor/reference_generators/const_reference_generator.py
+++ b/src/gym_electric_motor/reference_generators/const_reference_generator.py
@@ -21,7 +21,7 @@ class ConstReferenceGenerator(ReferenceGenerator):
         self._reference_value = reference_value
         self._reference_state = reference_state.lower()
         self.reference_space = Box(np.array([reference_value]), np.array([reference_value]), dtype=np.float64)
-        self._reference_names = self._reference_state
+        self._reference_names = [self._reference_state]
 
     def set_modules(self, physical_system):
         # docstring from superclass
-- 
2.43.0


From ba6d53a0b44f56ce7f2b9395fecfee8d0869c75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:41 +0000
Subject: [PATCH 41/90] fix: normally distributed initial states with
 coinciding bounds crashed the reset

---
 .../physical_systems/electric_motors/electric_motor.py        | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
index 52cdf10..2f3fb15 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
@@ -241,6 +241,9 @@ class ElectricMotor(RandomComponent):
                 mue = random_params[0] or (upper_bound - lower_bound) / 2 + lower_bound
                 sigma = random_params[1] or 1
                 a, b = (lower_bound - mue) / sigma, (upper_bound - mue) / sigma
+                # Bounds can coincide (e.g. a flux bound of zero): there is nothing to draw for these states
+                fixed = lower_bound >= upper_bound
+                a, b = np.where(fixed, -1.0, a), np.where(fixed, 1.0, b)
                 initial_value = truncnorm.rvs(
                     a,
                     b,
@@ -249,6 +252,7 @@ class ElectricMotor(RandomComponent):
                     size=(len(self._initial_states.keys())),
                     random_state=self.random_generator,
                 )
+                initial_value = np.where(fixed, lower_bound, initial_value)
                 # writing initial values in initial_states dict
                 random_states = {state: initial_value[idx] for idx, state in enumerate(self._initial_states.keys())}
                 self._initial_states.update(random_states)
-- 
2.43.0


From c4930cf5826822c5a21c08b5f0ed33f4bd44f74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:59 +0000
Subject: [PATCH 42/90] fix: ScipyOdeSolver restarts multistep integrators
 (vode, lsoda) when the inputs change

---
 src/gym_electric_motor/physical_systems/solvers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gym_electric_motor/physical_systems/solvers.py b/src/gym_electric_motor/physical_systems/solvers.py
index 88a863a..ec1514d 100644
--- a/src/gym_electric_motor/physical_systems/solvers.py
+++ b/src/gym_electric_motor/physical_systems/solvers.py
@@ -181,6 +181,9 @@ class ScipyOdeSolver(OdeSolver):
 
     def integrate(self, t):
         # Docstring of superclass
+        if self._integrator in ("vode", "zvode", "lsoda"):
+            # The inputs jump between two integrations: The step history of a multistep integrator must not be reused.
+            self._ode.set_initial_value(self._ode.y, self._ode.t)
         return self._ode.integrate(t)
 
 
-- 
2.43.0


From a3307128293a95c0ac3490d13d0228df2461ce23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:39 +0000
Subject: [PATCH 43/90] fix: respect a mean of zero for normally distributed
 initial states

---
 .../physical_systems/electric_motors/electric_motor.py        | 4 +++-
 .../physical_systems/mechanical_loads/mechanical_load.py      | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
index 2f3fb15..0b5aa7b 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
@@ -238,7 +238,9 @@ class ElectricMotor(RandomComponent):
 
             elif random_dist in ["normal", "gaussian"]:
                 # specific input or middle of interval
-                mue = random_params[0] or (upper_bound - lower_bound) / 2 + lower_bound
+                mue = random_params[0]
+                if mue is None:
+                    mue = (upper_bound - lower_bound) / 2 + lower_bound
                 sigma = random_params[1] or 1
                 a, b = (lower_bound - mue) / sigma, (upper_bound - mue) / sigma
                 # Bounds can coincide (e.g. a flux bound of zero): there is nothing to draw for these states
diff --git a/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py b/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
index e58070a..c5325e2 100644
--- a/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
+++ b/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
@@ -141,7 +141,9 @@ class MechanicalLoad(RandomComponent):
 
             elif random_dist in ["normal", "gaussian"]:
                 # specific input or middle of interval
-                mue = random_params[0] or (upper_bound - lower_bound) / 2 + lower_bound
+                mue = random_params[0]
+                if mue is None:
+                    mue = (upper_bound - lower_bound) / 2 + lower_bound
                 sigma = random_params[1] or 1
                 a = (lower_bound - mue) / sigma
                 b = (upper_bound - mue) / sigma
-- 
2.43.0


From 22e1d1d9b1026883f0cd583146f1a62e48a074d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:37 +0000
Subject: [PATCH 44/90] fix: offsets of wave references respect the lower limit
 margin

---
 .../reference_generators/sawtooth_reference_generator.py        | 2 +-
 .../reference_generators/sinusoidal_reference_generator.py      | 2 +-
 .../reference_generators/triangle_reference_generator.py        | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gym_electric_motor/reference_generators/sawtooth_reference_generator.py b/src/gym_electric_motor/reference_generators/sawtooth_reference_generator.py
index 0a6856a..a7740d1 100644
--- a/src/gym_electric_motor/reference_generators/sawtooth_reference_generator.py
+++ b/src/gym_electric_motor/reference_generators/sawtooth_reference_generator.py
@@ -44,7 +44,7 @@ class SawtoothReferenceGenerator(SubepisodedReferenceGenerator):
         self._frequency = self._get_current_value(self._frequency_range)
         offset_range = np.clip(
             self._offset_range,
-            -self._limit_margin[1] + self._amplitude,
+            self._limit_margin[0] + self._amplitude,
             self._limit_margin[1] - self._amplitude,
         )
         self._offset = self._get_current_value(offset_range)
diff --git a/src/gym_electric_motor/reference_generators/sinusoidal_reference_generator.py b/src/gym_electric_motor/reference_generators/sinusoidal_reference_generator.py
index 10afba4..ce309ca 100644
--- a/src/gym_electric_motor/reference_generators/sinusoidal_reference_generator.py
+++ b/src/gym_electric_motor/reference_generators/sinusoidal_reference_generator.py
@@ -47,7 +47,7 @@ class SinusoidalReferenceGenerator(SubepisodedReferenceGenerator):
         self._frequency = self._get_current_value(self._frequency_range)
         offset_range = np.clip(
             self._offset_range,
-            -self._limit_margin[1] + self._amplitude,
+            self._limit_margin[0] + self._amplitude,
             self._limit_margin[1] - self._amplitude,
         )
         self._offset = self._get_current_value(offset_range)
diff --git a/src/gym_electric_motor/reference_generators/triangle_reference_generator.py b/src/gym_electric_motor/reference_generators/triangle_reference_generator.py
index 32fb3b3..98181d4 100644
--- a/src/gym_electric_motor/reference_generators/triangle_reference_generator.py
+++ b/src/gym_electric_motor/reference_generators/triangle_reference_generator.py
@@ -50,7 +50,7 @@ class TriangularReferenceGenerator(SubepisodedReferenceGenerator):
         self._frequency = self._get_current_value(self._frequency_range)
         offset_range = np.clip(
             self._offset_range,
-            -self._limit_margin[1] + self._amplitude,
+            self._limit_margin[0] + self._amplitude,
             self._limit_margin[1] - self._amplitude,
         )
         self._offset = self._get_current_value(offset_range)
-- 
2.43.0


From 4ed8fd8d97e07b7ed492f86deade63fe2fd42b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:51 +0000
Subject: [PATCH 45/90] fix: torque limit of the PMSM with l_d larger than l_q

The root of the maximum torque per current condition was only the right one
for l_d < l_q. Otherwise the d-current exceeded the nominal current and the
derived torque limit was nan or far too small.
---
 .../electric_motors/permanent_magnet_synchronous_motor.py    | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/permanent_magnet_synchronous_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/permanent_magnet_synchronous_motor.py
index c2e098f..1558d48 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/permanent_magnet_synchronous_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/permanent_magnet_synchronous_motor.py
@@ -127,7 +127,10 @@ class PermanentMagnetSynchronousMotor(SynchronousMotor):
             i_n = self.nominal_values["i"]
             _p = mp["psi_p"] / (2 * (mp["l_d"] - mp["l_q"]))
             _q = -(i_n**2) / 2
-            i_d_opt = -_p / 2 - np.sqrt((_p / 2) ** 2 - _q)
+            if mp["l_d"] < mp["l_q"]:
+                i_d_opt = -_p / 2 - np.sqrt((_p / 2) ** 2 - _q)
+            else:
+                i_d_opt = -_p / 2 + np.sqrt((_p / 2) ** 2 - _q)
             i_q_opt = np.sqrt(i_n**2 - i_d_opt**2)
             return self.torque([i_d_opt, i_q_opt, 0])
 
-- 
2.43.0


From 3ef83ffe07fc8f2cfb488827400db8b67a504877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:04 +0000
Subject: [PATCH 46/90] fix: the derived torque limit of the SynRM is positive
 for every l_d and l_q

With l_d < l_q the limit became negative, which reversed the sign of the
normalised torque.
---
 .../electric_motors/synchronous_reluctance_motor.py             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/synchronous_reluctance_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/synchronous_reluctance_motor.py
index 603b953..b2a8b91 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/synchronous_reluctance_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/synchronous_reluctance_motor.py
@@ -131,7 +131,7 @@ class SynchronousReluctanceMotor(SynchronousMotor):
 
     def _torque_limit(self):
         # Docstring of superclass
-        return self.torque([self._limits["i_sd"] / np.sqrt(2), self._limits["i_sq"] / np.sqrt(2), 0])
+        return abs(self.torque([self._limits["i_sd"] / np.sqrt(2), self._limits["i_sq"] / np.sqrt(2), 0]))
 
     def torque(self, currents):
         # Docstring of superclass
-- 
2.43.0


From da712f610100a43675b5fc09d4fb55d9a0b215de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:18 +0000
Subject: [PATCH 47/90] fix: MeanEpisodeRewardPlot shows all episodes and
 accepts empty ones

Episodes that ended before the first rendering were dropped from the y-data
only, which made the rendering fail. An environment that was reset twice
raised a ZeroDivisionError. After reset_figures() the rewards of an
unfinished episode were added to the next one.
---
 .../motor_dashboard_plots/mean_episode_reward_plot.py     | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py b/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py
index ac6c471..ffb39dd 100644
--- a/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py
+++ b/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py
@@ -18,8 +18,7 @@ class MeanEpisodeRewardPlot(EpisodePlot):
 
     def initialize(self, axis):
         super().initialize(axis)
-        self._reward_data = []
-        self._y_data.append(self._reward_data)
+        self._y_data = [self._reward_data]
         self._lines.append(self._axis.plot([], self._reward_data, color=self._colors[0])[0])
 
     def on_step_end(self, k, state, reference, reward, terminated):
@@ -30,10 +29,13 @@ class MeanEpisodeRewardPlot(EpisodePlot):
     def reset_data(self):
         super().reset_data()
         self._reward_data = []
+        self._reward_sum = 0
+        self._episode_length = 0
         self._reward_range = [np.inf, -np.inf]
 
     def _set_y_data(self):
-        mean_reward = self._reward_sum / self._episode_length
+        # An episode without any step has no mean reward
+        mean_reward = self._reward_sum / self._episode_length if self._episode_length > 0 else np.nan
         self._reward_data.append(mean_reward)
         if self._reward_range[0] > mean_reward:
             self._reward_range[0] = mean_reward
-- 
2.43.0


From 632871f607040c494ed583f2f350d352712d3f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:31 +0000
Subject: [PATCH 48/90] fix: CumulativeConstraintViolationPlot can be rendered
 after reset_figures()

The x-data lost its first point, so that the next rendering failed, and the
old number of violations was continued while the steps restarted at zero.
---
 .../cumulative_constraint_violation_plot.py                     | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gym_electric_motor/visualization/motor_dashboard_plots/cumulative_constraint_violation_plot.py b/src/gym_electric_motor/visualization/motor_dashboard_plots/cumulative_constraint_violation_plot.py
index 4a4a930..1b40f14 100644
--- a/src/gym_electric_motor/visualization/motor_dashboard_plots/cumulative_constraint_violation_plot.py
+++ b/src/gym_electric_motor/visualization/motor_dashboard_plots/cumulative_constraint_violation_plot.py
@@ -18,7 +18,9 @@ class CumulativeConstraintViolationPlot(StepPlot):
 
     def reset_data(self):
         super().reset_data()
+        self._x_data = [0]
         self._violations = [0]
+        self._no_of_violations = 0
 
     def on_step_end(self, k, state, reference, reward, terminated):
         super().on_step_end(k, state, reference, reward, terminated)
-- 
2.43.0


From 6be4dd643bce96fc86e376331c5783c838e3e32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:38 +0000
Subject: [PATCH 49/90] fix: RewardPlot keeps showing the rewards after
 reset_figures()

reset_data() dropped the y-data, so that the line was never updated again.
---
 .../visualization/motor_dashboard_plots/reward_plot.py           | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gym_electric_motor/visualization/motor_dashboard_plots/reward_plot.py b/src/gym_electric_motor/visualization/motor_dashboard_plots/reward_plot.py
index 9bf3601..f274f6a 100644
--- a/src/gym_electric_motor/visualization/motor_dashboard_plots/reward_plot.py
+++ b/src/gym_electric_motor/visualization/motor_dashboard_plots/reward_plot.py
@@ -33,6 +33,7 @@ class RewardPlot(TimePlot):
     def reset_data(self):
         super().reset_data()
         self._reward_data = np.full(shape=self._x_data.shape, fill_value=np.nan)
+        self._y_data = [self._reward_data]
 
     def on_step_end(self, k, state, reference, reward, terminated):
         idx = self.data_idx
-- 
2.43.0


From e27e9f60658a2b5c9cf43fddf2807b4881ee3eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:47 +0000
Subject: [PATCH 50/90] fix: plots with a single line can be scaled to their
 data

With scale_plots=True the action and reward plots raised an IndexError.
---
 .../visualization/motor_dashboard_plots/base_plots.py       | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gym_electric_motor/visualization/motor_dashboard_plots/base_plots.py b/src/gym_electric_motor/visualization/motor_dashboard_plots/base_plots.py
index e203618..957c22c 100644
--- a/src/gym_electric_motor/visualization/motor_dashboard_plots/base_plots.py
+++ b/src/gym_electric_motor/visualization/motor_dashboard_plots/base_plots.py
@@ -188,10 +188,10 @@ class TimePlot(MotorDashboardPlot):
     def _scale_y_axis(self):
         if self._scale_plots_to_data:
             # nanmin does not reraise RuntimeWarning so we to check for NaNs ourselves
-            if np.isnan(self._y_data[0]).all() or np.isnan(self._y_data[1]).all():
+            if any(np.isnan(data).all() for data in self._y_data):
                 return
-            y_min = min(np.nanmin(self._y_data[0]), np.nanmin(self._y_data[1]))
-            y_max = max(np.nanmax(self._y_data[0]), np.nanmax(self._y_data[1]))
+            y_min = min(np.nanmin(data) for data in self._y_data)
+            y_max = max(np.nanmax(data) for data in self._y_data)
 
             self._axis.set_ylim(
                 y_min - np.sign(y_min) * 0.1 * y_min,
-- 
2.43.0


From 0e32d1c5eea3dfc70444eb7f56dc4d822c61d6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:17 +0000
Subject: [PATCH 51/90] fix: MeanEpisodeRewardPlot can be initialized with
 episodes already recorded

Follow-up of da712f6: the line was created with y-data but without x-data.
---
 .../motor_dashboard_plots/mean_episode_reward_plot.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py b/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py
index ffb39dd..dc63bc3 100644
--- a/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py
+++ b/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py
@@ -19,7 +19,7 @@ class MeanEpisodeRewardPlot(EpisodePlot):
     def initialize(self, axis):
         super().initialize(axis)
         self._y_data = [self._reward_data]
-        self._lines.append(self._axis.plot([], self._reward_data, color=self._colors[0])[0])
+        self._lines.append(self._axis.plot([], [], color=self._colors[0])[0])
 
     def on_step_end(self, k, state, reference, reward, terminated):
         super().on_step_end(k, state, reference, reward, terminated)
-- 
2.43.0


From 032de3f36a7b354a239a69c1cb1293fbd4881329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:24 +0000
Subject: [PATCH 52/90] fix: episode plots do not add the unfinished episode at
 reset_figures() to the next one

The episode that is running when the figures are reset is not recorded, but
its rewards and its length were kept for the next recorded episode.
---
 .../motor_dashboard_plots/episode_length_plot.py            | 5 +++++
 .../motor_dashboard_plots/mean_episode_reward_plot.py       | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/src/gym_electric_motor/visualization/motor_dashboard_plots/episode_length_plot.py b/src/gym_electric_motor/visualization/motor_dashboard_plots/episode_length_plot.py
index a2ed136..00cc3f7 100644
--- a/src/gym_electric_motor/visualization/motor_dashboard_plots/episode_length_plot.py
+++ b/src/gym_electric_motor/visualization/motor_dashboard_plots/episode_length_plot.py
@@ -21,6 +21,11 @@ class EpisodeLengthPlot(EpisodePlot):
         super().initialize(axis)
         self._lines.append(self._axis.plot([], [], color=self._colors[0])[0])
 
+    def on_reset_begin(self):
+        super().on_reset_begin()
+        # Also drop the length of an episode that has not been recorded
+        self._episode_length = 0
+
     def on_step_end(self, k, state, reference, reward, terminated):
         self._episode_length = k
 
diff --git a/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py b/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py
index dc63bc3..f263dc0 100644
--- a/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py
+++ b/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py
@@ -21,6 +21,12 @@ class MeanEpisodeRewardPlot(EpisodePlot):
         self._y_data = [self._reward_data]
         self._lines.append(self._axis.plot([], [], color=self._colors[0])[0])
 
+    def on_reset_begin(self):
+        super().on_reset_begin()
+        # Also drop the data of an episode that has not been recorded
+        self._reward_sum = 0
+        self._episode_length = 0
+
     def on_step_end(self, k, state, reference, reward, terminated):
         super().on_step_end(k, state, reference, reward, terminated)
         self._reward_sum += reward
-- 
2.43.0


From f2a137ebedff9098c300c8fe1d01bb199709e52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:57 +0000
Subject: [PATCH 53/90] fix: MeanEpisodeRewardPlot can be rendered if all
 episodes have been empty

Follow-up of da712f6: without any reward there is no range to scale to.
---
 .../motor_dashboard_plots/mean_episode_reward_plot.py          | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py b/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py
index f263dc0..8384229 100644
--- a/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py
+++ b/src/gym_electric_motor/visualization/motor_dashboard_plots/mean_episode_reward_plot.py
@@ -52,6 +52,9 @@ class MeanEpisodeRewardPlot(EpisodePlot):
         self._reset = True
 
     def _scale_y_axis(self):
+        if not np.isfinite(self._reward_range).all():
+            # All episodes up to now have been empty
+            return
         if len(self._reward_data) > 1 and self._axis.get_ylim() != tuple(self._reward_range):
             spacing = 0.1 * (self._reward_range[1] - self._reward_range[0])
             self._axis.set_ylim(self._reward_range[0] - spacing, self._reward_range[1] + spacing)
-- 
2.43.0


From ff2b7e093f61b044196c86f33422815e7c64ef39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:34 +0000
Subject: [PATCH 54/90] fix: the torque control of a PMSM with l_d = l_q can be
 tuned

---
 .../stages/operation_point_selection/pmsm_ops.py              | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
index ac7970a..48aaa0a 100644
--- a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
@@ -72,12 +72,12 @@ class PMSMOperationPointSelection(FieldOrientedControllerOperationPointSelection
                     i_d = i_d_(i_q, t, self)
 
             # Different current vectors are determined for each reference and the smallest magnitude is selected
-            i = np.power(i_d, 2) + np.power(i_q, 2)
-            min_idx = np.where(i == np.amin(i))[0][0]
             if self.l_d == self.l_q:
                 i_q_ret = i_q
                 i_d_ret = i_d
             else:
+                i = np.power(i_d, 2) + np.power(i_q, 2)
+                min_idx = np.where(i == np.amin(i))[0][0]
                 i_q_ret = np.sign((self.l_q - self.l_d) * t) * np.abs(i_q[min_idx])
                 i_d_ret = i_d[min_idx]
 
-- 
2.43.0


From c2a2ee033c58c5ab2086063b111d92ebc011b1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:42 +0000
Subject: [PATCH 55/90] fix: operation points of reluctance machines match the
 demanded torque and its sign

---
 .../operation_point_selection/pmsm_ops.py       | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
index 48aaa0a..bcf7a46 100644
--- a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
@@ -78,8 +78,8 @@ class PMSMOperationPointSelection(FieldOrientedControllerOperationPointSelection
             else:
                 i = np.power(i_d, 2) + np.power(i_q, 2)
                 min_idx = np.where(i == np.amin(i))[0][0]
-                i_q_ret = np.sign((self.l_q - self.l_d) * t) * np.abs(i_q[min_idx])
                 i_d_ret = i_d[min_idx]
+                i_q_ret = np.sign((self.psi_p + (self.l_d - self.l_q) * i_d_ret) * t) * np.abs(i_q[min_idx])
 
             # The flow is finally calculated from the currents
             psi = np.sqrt((self.psi_p + self.l_d * i_d_ret) ** 2 + (self.l_q * i_q_ret) ** 2)
@@ -302,9 +302,9 @@ class PMSMOperationPointSelection(FieldOrientedControllerOperationPointSelection
 
     def _get_psi_idx_mtpf(self, psi):
         """Get the index of the flux of the MTPF lookup table."""
-        return np.clip(
-            int((self.psi_count - 1) - round(psi / self.psi_max_mtpf * (self.psi_count - 1))), 0, self.psi_count
-        )
+        # Operation points beyond the current limit are not part of the table
+        psi_count = len(self.mtpf) // 2
+        return np.clip(int((psi_count - 1) - round(psi / self.psi_max_mtpf * (psi_count - 1))), 0, psi_count - 1)
 
     def _get_t_idx_mtpc(self, torque):
         """Get the index of the torque of the mtpc lookup table."""
@@ -348,22 +348,19 @@ class PMSMOperationPointSelection(FieldOrientedControllerOperationPointSelection
 
             if self.i_d_inter[t_idx, psi_idx] <= self.mtpf[psi_max_idx, 2]:
                 i_d = self.mtpf[psi_max_idx, 2]
-                i_q = np.sign(reference[0]) * np.abs(self.mtpf[psi_max_idx, 3])
+                i_q = self.invert * np.sign(reference[0]) * np.abs(self.mtpf[psi_max_idx, 3])
                 reference = np.sign(reference[0]) * t_max
             else:
                 i_d = self.i_d_inter[t_idx, psi_idx]
                 i_q = self.i_q_inter[t_idx, psi_idx]
                 if i_d > self.mtpc[psi_idx_, 1]:
                     i_d = self.mtpc[psi_idx_, 1]
-                    i_q = np.sign(reference[0]) * np.abs(self.mtpc[psi_idx_, 2])
+                    i_q = self.invert * np.sign(reference[0]) * np.abs(self.mtpc[psi_idx_, 2])
 
         # ensure that the mtpf characteristic curve is observed
         if i_d < self.mtpf[psi_max_idx, 2]:
             i_d = self.mtpf[psi_max_idx, 2]
-            i_q = np.sign(reference[0]) * np.abs(self.mtpf[psi_max_idx, 3])
-
-        # invert the i_q if necessary
-        i_q = self.invert * i_q
+            i_q = self.invert * np.sign(reference[0]) * np.abs(self.mtpf[psi_max_idx, 3])
 
         return np.array([i_d, i_q])
 
-- 
2.43.0


From a06f09f41d7ef99574366213c90b058a33bd3b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:10 +0000
Subject: [PATCH 56/90] fix: the decoupling of induction machines uses the
 electrical speed

---
 src/gem_controllers/stages/emf_feedforward_ind.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gem_controllers/stages/emf_feedforward_ind.py b/src/gem_controllers/stages/emf_feedforward_ind.py
index 6b2c64b..438a922 100644
--- a/src/gem_controllers/stages/emf_feedforward_ind.py
+++ b/src/gem_controllers/stages/emf_feedforward_ind.py
@@ -30,7 +30,8 @@ class EMFFeedforwardInd(EMFFeedforward):
         """
 
         # Calculate the stator angular velocity
-        omega_s = state[self.omega_idx] + self.r_r * self.l_m / self.l_r * state[self.i_sq_idx] / max(
+        omega = self.omega_el(state)
+        omega_s = omega + self.r_r * self.l_m / self.l_r * state[self.i_sq_idx] / max(
             np.abs(state[self.psi_abs_idx]), 1e-4
         ) * np.sign(state[self.psi_abs_idx])
 
@@ -38,7 +39,7 @@ class EMFFeedforwardInd(EMFFeedforward):
         action = (
             reference
             + omega_s * self.inductance * state[self.current_indices]
-            + np.array([-self.l_m * self.r_r / (self.l_r**2), state[self.omega_idx] * self.l_m / self.l_r])
+            + np.array([-self.l_m * self.r_r / (self.l_r**2), omega * self.l_m / self.l_r])
             * state[self.psi_abs_idx]
         )
 
-- 
2.43.0


From 454304ef68b21d9abf475becd08eae43dde8188d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:17 +0000
Subject: [PATCH 57/90] fix: the angle of the abc transformation is advanced by
 the electrical speed and the dead time

---
 src/gem_controllers/stages/abc_transformation.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/gem_controllers/stages/abc_transformation.py b/src/gem_controllers/stages/abc_transformation.py
index c153ec8..1743690 100644
--- a/src/gem_controllers/stages/abc_transformation.py
+++ b/src/gem_controllers/stages/abc_transformation.py
@@ -35,6 +35,7 @@ class AbcTransformation(Stage):
         super().__init__()
         self._tau = 1e-4
         self._advance_factor = 0.5
+        self._p = 1
         self.omega_idx = None
         self.angle_idx = None
         self._output_len = None
@@ -58,7 +59,7 @@ class AbcTransformation(Stage):
 
     def _angle_advance(self, state):
         """Multiply the advance factor with the speed and the sampling time to calculate the advance angle"""
-        return state[self.angle_idx] + self._advance_factor * self.tau * state[self.omega_idx]
+        return state[self.angle_idx] + self._advance_factor * self.tau * self._p * state[self.omega_idx]
 
     def tune(self, env, env_id, **_):
         """
@@ -74,9 +75,8 @@ class AbcTransformation(Stage):
             self.angle_idx = env.state_names.index("epsilon")
         self.omega_idx = env.state_names.index("omega")
         self.tau = env.physical_system.tau
-        if hasattr(env.physical_system.converter, "dead_time"):
-            self._advance_factor = 1.5 if env.physical_system.converter.dead_time else 0.5
-        else:
-            self._advance_factor = 0.5
+        # The voltages are applied with the delay of the dead time of the system
+        self._advance_factor = 0.5 + getattr(env.physical_system, "dead_time", 0)
         action_type, _, motor_type = gc.utils.split_env_id(env_id)
+        self._p = reader.p_reader[motor_type](env)
         self._output_len = len(reader.get_output_voltages(motor_type, action_type))
-- 
2.43.0


From 574feca2b438dc85289d4de1ad62870594bf7fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:23 +0000
Subject: [PATCH 58/90] fix: the decoupling of PermExDc and ExtExDc machines
 feeds the induced voltage forward

---
 src/gem_controllers/parameter_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gem_controllers/parameter_reader.py b/src/gem_controllers/parameter_reader.py
index 9bfca39..3b9f5dd 100644
--- a/src/gem_controllers/parameter_reader.py
+++ b/src/gem_controllers/parameter_reader.py
@@ -26,8 +26,8 @@ psi_reader = {
 p_reader = {
     "SeriesDc": lambda env: 1,
     "ShuntDc": lambda env: 1,
-    "ExtExDc": lambda env: 0,
-    "PermExDc": lambda env: 0,
+    "ExtExDc": lambda env: 1,
+    "PermExDc": lambda env: 1,
     "PMSM": lambda env: env.physical_system.electrical_motor.motor_parameter["p"],
     "SynRM": lambda env: env.physical_system.electrical_motor.motor_parameter["p"],
     "SCIM": lambda env: env.physical_system.electrical_motor.motor_parameter["p"],
-- 
2.43.0


From 94f4a0266aafc291d66c00835f821dd217193470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:30 +0000
Subject: [PATCH 59/90] fix: GemController.make returns an initialized
 controller

---
 src/gem_controllers/gem_controller.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gem_controllers/gem_controller.py b/src/gem_controllers/gem_controller.py
index 8083c5e..c30a2ec 100644
--- a/src/gem_controllers/gem_controller.py
+++ b/src/gem_controllers/gem_controller.py
@@ -92,6 +92,7 @@ class GemController:
 
         # Fit the controllers parameters to the environment
         controller.tune(env, env_id, **tuner_kwargs)
+        controller.reset()
 
         if block_diagram:
             controller.build_block_diagram(env_id, save_block_diagram_as)
-- 
2.43.0


From f654896169894ee18293ef61e1fd31f390276b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:22 +0000
Subject: [PATCH 60/90] fix: the analytical operation points of PMSM and EESM
 have the demanded flux

---
 .../stages/operation_point_selection/eesm_ops.py              | 4 ++--
 .../stages/operation_point_selection/pmsm_ops.py              | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/eesm_ops.py b/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
index 5217547..30970e4 100644
--- a/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
@@ -100,9 +100,9 @@ class EESMOperationPointSelection(FieldOrientedControllerOperationPointSelection
             self.l_d**2 * (self.l_m * i_e) ** 2
             + 4 * self.l_d * (self.l_m * i_e) ** 2 * (self.l_d - self.l_q)
             + ((self.l_m * i_e) ** 2 - psi**2) * (self.l_d - self.l_q) ** 2,
-            2 * self.l_q * (self.l_m * i_e) ** 3
+            2 * self.l_d * (self.l_m * i_e) ** 3
             + 2 * ((self.l_m * i_e) ** 2 - psi**2) * self.l_m * i_e * (self.l_d - self.l_q),
-            ((self.l_m * i_e) ** 2 - psi**2) * (self.l_m * i_e) ** 2 + (self.l_q * torque / (3 * self.p)) ** 2,
+            ((self.l_m * i_e) ** 2 - psi**2) * (self.l_m * i_e) ** 2 + (self.l_q * 2 * torque / (3 * self.p)) ** 2,
         ]
 
         self._calculate_luts()
diff --git a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
index bcf7a46..1d242d8 100644
--- a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
@@ -272,7 +272,7 @@ class PMSMOperationPointSelection(FieldOrientedControllerOperationPointSelection
             self.l_d**2 * self.psi_p**2
             + 4 * self.l_d * self.psi_p**2 * (self.l_d - self.l_q)
             + (self.psi_p**2 - psi**2) * (self.l_d - self.l_q) ** 2,
-            2 * self.l_q * self.psi_p**3 + 2 * (self.psi_p**2 - psi**2) * self.psi_p * (self.l_d - self.l_q),
+            2 * self.l_d * self.psi_p**3 + 2 * (self.psi_p**2 - psi**2) * self.psi_p * (self.l_d - self.l_q),
             (self.psi_p**2 - psi**2) * self.psi_p**2 + (self.l_q * 2 * torque / (3 * self.p)) ** 2,
         ]
 
-- 
2.43.0


From 106aa90f1cbcae6ac2b65954d0347757777c0f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:32 +0000
Subject: [PATCH 61/90] fix: the operation point of a PMSM is a real solution
 of the torque and flux equations

---
 .../stages/operation_point_selection/pmsm_ops.py              | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
index 1d242d8..31c62fa 100644
--- a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
@@ -277,7 +277,9 @@ class PMSMOperationPointSelection(FieldOrientedControllerOperationPointSelection
         ]
 
         sol = np.roots(poly)  # Solve the equation
-        i_d = np.real(sol[-1])  # Select the correct solution for the i_sd current
+        # Select the real solution with the smallest i_sd current
+        real = sol[np.abs(np.imag(sol)) <= 1e-6 * np.abs(sol)]
+        i_d = np.real(real[np.argmin(np.abs(real))] if len(real) > 0 else sol[-1])
         i_q = 2 * torque / (3 * self.p * (self.psi_p + (self.l_d - self.l_q) * i_d))  # Calculate the i_sq current
         return i_d, i_q
 
-- 
2.43.0


From d62bb7b17144ae71396304526a4a9e0211d4f970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:39 +0000
Subject: [PATCH 62/90] fix: control_environment limits the length of the first
 episode as well

---
 src/gem_controllers/gem_controller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gem_controllers/gem_controller.py b/src/gem_controllers/gem_controller.py
index c30a2ec..b8f4ec1 100644
--- a/src/gem_controllers/gem_controller.py
+++ b/src/gem_controllers/gem_controller.py
@@ -164,11 +164,11 @@ class GemController:
                 env.render()  # Plot the states
             action = self.control(state, reference)  # Calculate the action
             (state, reference), _, trun, done, _ = env.step(action)  # Simulate one step of the environment
+            current_episode_length = current_episode_length + 1
             if done or trun or current_episode_length >= max_episode_length:
                 # Reset the environment and controller
                 (state, reference), _ = env.reset()
                 self.reset()
                 current_episode_length = 0
-            current_episode_length = current_episode_length + 1
         if self.block_diagram:
             self.block_diagram.close()
-- 
2.43.0


From 7ee1814d647a91282dbfc59ead05a8482ea1b225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:38 +0000
Subject: [PATCH 63/90] fix: the operation point of a PMSM stays close to the
 flux limit if the torque is not reachable

---
 .../stages/operation_point_selection/pmsm_ops.py              | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
index 31c62fa..3e49aaf 100644
--- a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
@@ -277,9 +277,9 @@ class PMSMOperationPointSelection(FieldOrientedControllerOperationPointSelection
         ]
 
         sol = np.roots(poly)  # Solve the equation
-        # Select the real solution with the smallest i_sd current
+        # Select the real solution with the smallest i_sd current or the closest point to an unreachable one
         real = sol[np.abs(np.imag(sol)) <= 1e-6 * np.abs(sol)]
-        i_d = np.real(real[np.argmin(np.abs(real))] if len(real) > 0 else sol[-1])
+        i_d = np.real(real[np.argmin(np.abs(real))] if len(real) > 0 else sol[np.argmin(np.abs(np.imag(sol)))])
         i_q = 2 * torque / (3 * self.p * (self.psi_p + (self.l_d - self.l_q) * i_d))  # Calculate the i_sq current
         return i_d, i_q
 
-- 
2.43.0


From 6f3080f52cb09dcfae5688e20a7bba2d3aa9a021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:05 +0000
Subject: [PATCH 64/90] fix: the current controllers of induction machines are
 tuned with the leakage inductance

---
 src/gem_controllers/parameter_reader.py | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/src/gem_controllers/parameter_reader.py b/src/gem_controllers/parameter_reader.py
index 3b9f5dd..f842ab6 100644
--- a/src/gem_controllers/parameter_reader.py
+++ b/src/gem_controllers/parameter_reader.py
@@ -34,6 +34,12 @@ p_reader = {
     "EESM": lambda env: env.physical_system.electrical_motor.motor_parameter["p"],
 }
 
+
+def l_sigma(mp):
+    """Leakage inductance of the stator windings of an induction motor."""
+    return mp["l_sigs"] + mp["l_m"] * mp["l_sigr"] / (mp["l_m"] + mp["l_sigr"])
+
+
 l_reader = {
     "SeriesDc": lambda env: np.array(
         [
@@ -69,20 +75,7 @@ l_reader = {
             env.physical_system.electrical_motor.motor_parameter["l_q"],
         ]
     ),
-    "SCIM": lambda env: np.array(
-        [
-            (
-                env.physical_system.electrical_motor.motor_parameter["l_sigr"]
-                + env.physical_system.electrical_motor.motor_parameter["l_m"]
-            )
-            / env.physical_system.electrical_motor.motor_parameter["r_r"],
-            (
-                env.physical_system.electrical_motor.motor_parameter["l_sigr"]
-                + env.physical_system.electrical_motor.motor_parameter["l_m"]
-            )
-            / env.physical_system.electrical_motor.motor_parameter["r_r"],
-        ]
-    ),
+    "SCIM": lambda env: np.full(2, l_sigma(env.physical_system.electrical_motor.motor_parameter)),
     "EESM": lambda env: np.array(
         [
             env.physical_system.electrical_motor.motor_parameter["l_d"],
-- 
2.43.0


From a71e386c23dbfce27b511e1162e7ec2f10c835f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:14 +0000
Subject: [PATCH 65/90] fix: the flux controller of induction machines does not
 drive the rotor flux through zero

---
 .../stages/operation_point_selection/scim_ops.py                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/scim_ops.py b/src/gem_controllers/stages/operation_point_selection/scim_ops.py
index 54c4385..619f1c9 100644
--- a/src/gem_controllers/stages/operation_point_selection/scim_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/scim_ops.py
@@ -179,7 +179,7 @@ class SCIMOperationPointSelection(FieldOrientedControllerOperationPointSelection
 
         # Control the i_sd current with a PI-Controller
         i_sd_ = self.psi_controller(np.array([psi]), np.array([psi_opt]))
-        i_sd = np.clip(i_sd_, -self.i_sd_limit, self.i_sd_limit)
+        i_sd = np.clip(i_sd_, 0.0, self.i_sd_limit)
         if i_sd_ == i_sd:
             self.psi_controller.integrate(np.array([psi]), np.array([psi_opt]))
         i_sd = i_sd[0]
-- 
2.43.0


From a9b807617034ced2fd839b1b6eeed50be6586914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:56 +0000
Subject: [PATCH 66/90] fix: the optimal flux of induction machines respects
 the current limit

---
 .../stages/operation_point_selection/scim_ops.py     | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/scim_ops.py b/src/gem_controllers/stages/operation_point_selection/scim_ops.py
index 619f1c9..f4edd68 100644
--- a/src/gem_controllers/stages/operation_point_selection/scim_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/scim_ops.py
@@ -58,9 +58,15 @@ class SCIMOperationPointSelection(FieldOrientedControllerOperationPointSelection
                     )
                 )  # Calculate losses
 
-                i_idx = np.argmin(pv)  # Minimize losses
-                i_sd_opt = i_sd[i_idx + 1]
-                i_sq_opt = i_sq[i_idx]
+                permitted = np.power(i_sd[1:], 2) + np.power(i_sq, 2) <= self.i_sd_limit**2
+                if np.any(permitted):
+                    i_idx = np.argmin(np.where(permitted, pv, np.inf))  # Minimize losses
+                    i_sd_opt = i_sd[i_idx + 1]
+                    i_sq_opt = i_sq[i_idx]
+                else:
+                    # The torque is not reachable, maximize it within the current limit
+                    i_sd_opt = self.i_sd_limit / np.sqrt(2)
+                    i_sq_opt = np.sign(t) * i_sd_opt
             else:
                 i_sq_opt = 0
                 i_sd_opt = 0
-- 
2.43.0


From 6c9c86c3e3d0019feb48116a2b86435e2a25b614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:13 +0000
Subject: [PATCH 67/90] fix: finite multi converters refuse actions with a
 wrong number of elements

---
 src/gym_electric_motor/physical_systems/converters.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gym_electric_motor/physical_systems/converters.py b/src/gym_electric_motor/physical_systems/converters.py
index d933af2..1c4f358 100644
--- a/src/gym_electric_motor/physical_systems/converters.py
+++ b/src/gym_electric_motor/physical_systems/converters.py
@@ -621,6 +621,9 @@ class FiniteMultiConverter(FiniteConverter):
 
     def set_action(self, action, t):
         # Docstring in base class
+        assert self.action_space.contains(
+            action
+        ), f"The selected action {action} is not a valid element of the action space {self.action_space}."
         times = []
         for subconverter, sub_action in zip(self._sub_converters, action):
             times += subconverter.set_action(sub_action, t)
-- 
2.43.0


From 9336408fe5bde1ebc54a143bef0ce07bb3679dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:32 +0000
Subject: [PATCH 68/90] fix: accept steps only after a completed reset

---
 src/gym_electric_motor/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/core.py b/src/gym_electric_motor/core.py
index 5da485e..d0a9ca8 100644
--- a/src/gym_electric_motor/core.py
+++ b/src/gym_electric_motor/core.py
@@ -315,12 +315,14 @@ class ElectricMotorEnvironment(gymnasium.core.Env):
         # Without a seed, the components continue with their current seed sequences (see RandomComponent).
         if seed is not None:
             self._seed(seed)
+        # Steps are accepted after a complete reset only
+        self._terminated = True
         self._call_callbacks("on_reset_begin")
-        self._terminated = False
         state = self._physical_system.reset()
         reference, next_ref, _ = self.reference_generator.reset(state)
         self._reward_function.reset(state, reference)
         self._call_callbacks("on_reset_end", state, reference)
+        self._terminated = False
 
         observation = (state[self.state_filter], next_ref)
         info = {}
-- 
2.43.0


From 14c0bf3a5872c013eaccf1c501c585701e989998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:18 +0000
Subject: [PATCH 69/90] fix: StateObserver reports the current values of the
 requested states and references

---
 src/gym_electric_motor/core.py               |  3 +++
 src/gym_electric_motor/observers/observer.py | 24 ++++++++++----------
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/gym_electric_motor/core.py b/src/gym_electric_motor/core.py
index d0a9ca8..a50704d 100644
--- a/src/gym_electric_motor/core.py
+++ b/src/gym_electric_motor/core.py
@@ -114,6 +114,7 @@ class ElectricMotorEnvironment(gymnasium.core.Env):
     current_state = None
     current_reference = None
     current_next_reference = None
+    current_observation = None
 
     @property
     def physical_system(self):
@@ -321,6 +322,8 @@ class ElectricMotorEnvironment(gymnasium.core.Env):
         state = self._physical_system.reset()
         reference, next_ref, _ = self.reference_generator.reset(state)
         self._reward_function.reset(state, reference)
+        self.current_state = state
+        self.current_observation = (state, next_ref)
         self._call_callbacks("on_reset_end", state, reference)
         self._terminated = False
 
diff --git a/src/gym_electric_motor/observers/observer.py b/src/gym_electric_motor/observers/observer.py
index eb489ae..ab7e79e 100644
--- a/src/gym_electric_motor/observers/observer.py
+++ b/src/gym_electric_motor/observers/observer.py
@@ -38,18 +38,18 @@ class StateObserver(Observer):
         self.state_names = state_names
 
     def pull(self, state: str) -> any:
-        # Integrate reference into states
-
-        state_names = self.state_names
-
-        if state in state_names:
-            state_value = self.env.current_state[state_names.index(state)]
-            if state_value is not None:
-                return (state, state_value)
-            else:
-                raise ValueError(f"State '{state}' is None")
-        else:
-            raise ValueError(f"State '{state}' not found in state_names, allowed states are {state_names}")
+        if state not in self.state_names:
+            raise ValueError(f"State '{state}' not found in state_names, allowed states are {self.state_names}")
+
+        env = self.env.unwrapped
+        if env.current_observation is None:
+            raise ValueError(f"State '{state}' is None")
+
+        # The observed states are a selection of the physical systems states, followed by the next references
+        current_state, next_reference = env.current_observation
+        if state in env.state_names:
+            return (state, current_state[env.physical_system.state_positions[state]])
+        return (state, next_reference[self.state_names.index(state) - len(env.state_names)])
 
     def push(self, value):
         pass
-- 
2.43.0


From 1db4d90b092b60549aa709c4ec334779f31b30ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:07 +0000
Subject: [PATCH 70/90] fix: should_plot belongs to one controller

---
 src/gem_controllers/gem_controller.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/gem_controllers/gem_controller.py b/src/gem_controllers/gem_controller.py
index b8f4ec1..1987fda 100644
--- a/src/gem_controllers/gem_controller.py
+++ b/src/gem_controllers/gem_controller.py
@@ -15,6 +15,9 @@ class GemController:
     controller to control a gym-electric-motor environment.
     """
 
+    # (bool): Flag, if the references of the controller stages shall be plotted
+    should_plot = False
+
     @property
     def signals(self):
         """Input signals of the controller"""
@@ -61,8 +64,6 @@ class GemController:
         Returns:
             GemController: An initialized (and tuned) instance of a controller that fits to the specified environment.
         """
-        cls.should_plot = should_plot
-
         control_task = gc.utils.get_control_task(env_id)
         tuner_kwargs = dict()
 
@@ -90,6 +91,8 @@ class GemController:
         # Wrap the controller with the adapter to map the inputs and outputs to the environment
         controller = gc.GymElectricMotorAdapter(env, env_id, controller)
 
+        controller.should_plot = should_plot
+
         # Fit the controllers parameters to the environment
         controller.tune(env, env_id, **tuner_kwargs)
         controller.reset()
-- 
2.43.0


From 6195ecb935aedb62cd040d7d63e34ba8a2aed133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:07 +0000
Subject: [PATCH 71/90] fix: GemController regards the plot_references argument

---
 src/gem_controllers/gem_adapter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gem_controllers/gem_adapter.py b/src/gem_controllers/gem_adapter.py
index 4ed6628..09c1769 100644
--- a/src/gem_controllers/gem_adapter.py
+++ b/src/gem_controllers/gem_adapter.py
@@ -112,7 +112,7 @@ class GymElectricMotorAdapter(GemController):
         self._reference_plotter.tune(
             env,
             self._controller.referenced_states,
-            plot_references=True,
+            plot_references=kwargs.get("plot_references", True),
             maximum_reference=self._controller.maximum_reference,
         )
 
-- 
2.43.0


From 4e969f71a0074f4691d67069a425f583996a3e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:07 +0000
Subject: [PATCH 72/90] fix: ReferencePlotter crashed with other
 visualizations, before the first rendering and on current limit labels

---
 src/gem_controllers/reference_plotter.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/gem_controllers/reference_plotter.py b/src/gem_controllers/reference_plotter.py
index 76c892c..93ca73e 100644
--- a/src/gem_controllers/reference_plotter.py
+++ b/src/gem_controllers/reference_plotter.py
@@ -24,7 +24,7 @@ class ReferencePlotter:
         """
         if plot_references:
             for visualization in env.visualizations:
-                for time_plot in visualization._time_plots:
+                for time_plot in getattr(visualization, "_time_plots", ()):
                     if isinstance(time_plot, StatePlot):
                         if time_plot.state in referenced_states:
                             self._referenced_plots.append(time_plot)
@@ -46,11 +46,12 @@ class ReferencePlotter:
             references(np.ndarray): Array of all reference values of the subordinate stages.
         """
 
-        if not self._maximum_reference_set:
+        # The axes exist from the first rendering on
+        if not self._maximum_reference_set and all(plot._axis is not None for plot in self._referenced_plots):
             for plot in self._referenced_plots:
                 if plot.state in ["i_e", "i_a", "i"] and plot.state in self._maximum_reference.keys():
                     label = dict(
-                        i="$i^*$$_{\mathrm{ max}}$", i_a="$i^*_{a}$$_\mathrm{ max}}$", i_e="$i^*_{e}$$_\mathrm{ max}}$"
+                        i="$i^*$$_{\mathrm{ max}}$", i_a="$i^*_{a}$$_{\mathrm{ max}}$", i_e="$i^*_{e}$$_{\mathrm{ max}}$"
                     )
                     plot._axis.axhline(self._maximum_reference[plot.state][0], c="g", linewidth=0.75, linestyle="--")
                     plot._axis.axhline(self._maximum_reference[plot.state][1], c="g", linewidth=0.75, linestyle="--")
-- 
2.43.0


From edeb0a0223fb9bbe0c87333a7a419e952317ad03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:02 +0000
Subject: [PATCH 73/90] fix: the derived torque limit of the EESM used the
 nominal stator current in place of the excitation

---
 .../electric_motors/externally_excited_synchronous_motor.py     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/externally_excited_synchronous_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/externally_excited_synchronous_motor.py
index 2095779..2a6b032 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/externally_excited_synchronous_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/externally_excited_synchronous_motor.py
@@ -188,7 +188,7 @@ class ExternallyExcitedSynchronousMotor(SynchronousMotor):
             return self.torque([0, self._limits["i_sq"], self._limits["i_e"], 0])
         else:
             i_n = self.nominal_values["i"]
-            _p = mp["l_M"] * i_n / (2 * (mp["l_d"] - mp["l_q"]))
+            _p = mp["l_M"] * mp["i_k_rs"] * self._limits["i_e"] / (2 * (mp["l_d"] - mp["l_q"]))
             _q = - i_n ** 2 / 2
             if mp["l_d"] < mp["l_q"]:
                 i_d_opt = - _p / 2 - np.sqrt((_p / 2) ** 2 - _q)
-- 
2.43.0


From e85c0f2a9ac9b3a194b62f41226281855c3faf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:41 +0000
Subject: [PATCH 74/90] fix: copying or unpickling a PhysicalSystemWrapper
 exceeded the recursion limit

---
 .../physical_system_wrappers/physical_system_wrapper.py        | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gym_electric_motor/physical_system_wrappers/physical_system_wrapper.py b/src/gym_electric_motor/physical_system_wrappers/physical_system_wrapper.py
index 8e10748..bc896c9 100644
--- a/src/gym_electric_motor/physical_system_wrappers/physical_system_wrapper.py
+++ b/src/gym_electric_motor/physical_system_wrappers/physical_system_wrapper.py
@@ -113,6 +113,9 @@ class PhysicalSystemWrapper(gem.core.PhysicalSystem, RandomComponent):
         return [self._seed_sequence.entropy]
 
     def __getattr__(self, name):
+        # A wrapper without attributes (e.g. while it is copied or unpickled) has no inner system to ask
+        if name == "_physical_system":
+            raise AttributeError(name)
         return getattr(self._physical_system, name)
 
     def simulate(self, action):
-- 
2.43.0


From 6641221ae168a0853e626af695983a67728cc916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:43 +0000
Subject: [PATCH 75/90] fix: a mechanical load used in a second environment
 accumulated the rotor inertia

---
 .../physical_systems/mechanical_loads/mechanical_load.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py b/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
index c5325e2..ef71196 100644
--- a/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
+++ b/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
@@ -195,7 +195,7 @@ class MechanicalLoad(RandomComponent):
         Args:
             j_rotor(float): The moment of inertia of the rotor shaft of the motor.
         """
-        self._j_total += j_rotor
+        self._j_total = self._j_load + j_rotor
 
     def mechanical_ode(self, t, mechanical_state, torque):
         """
-- 
2.43.0


From 18939f732d9c3b6b1de0c750d480dd8119b74d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:52 +0000
Subject: [PATCH 76/90] fix: subepisoded reference generators were not usable
 in a second environment

---
 .../reference_generators/sawtooth_reference_generator.py    | 6 ++++--
 .../reference_generators/sinusoidal_reference_generator.py  | 6 ++++--
 .../reference_generators/step_reference_generator.py        | 6 ++++--
 .../reference_generators/subepisoded_reference_generator.py | 5 +++++
 .../reference_generators/triangle_reference_generator.py    | 6 ++++--
 .../wiener_process_reference_generator.py                   | 3 ++-
 6 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/gym_electric_motor/reference_generators/sawtooth_reference_generator.py b/src/gym_electric_motor/reference_generators/sawtooth_reference_generator.py
index a7740d1..88fd985 100644
--- a/src/gym_electric_motor/reference_generators/sawtooth_reference_generator.py
+++ b/src/gym_electric_motor/reference_generators/sawtooth_reference_generator.py
@@ -27,16 +27,18 @@ class SawtoothReferenceGenerator(SubepisodedReferenceGenerator):
         self._amplitude_range = amplitude_range or (0, np.inf)
         self._frequency_range = frequency_range
         self._offset_range = offset_range or (-np.inf, np.inf)
+        self._configured_ranges = self._amplitude_range, self._offset_range
 
     def set_modules(self, physical_system):
         super().set_modules(physical_system)
+        amplitude_range, offset_range = self._configured_ranges
         self._amplitude_range = np.clip(
-            self._amplitude_range,
+            amplitude_range,
             0,
             (self._limit_margin[1] - self._limit_margin[0]) / 2,
         )
         # limit_margin will range from(-1, 1) but amplitude cannot exceed 1
-        self._offset_range = np.clip(self._offset_range, self._limit_margin[0], self._limit_margin[1])
+        self._offset_range = np.clip(offset_range, self._limit_margin[0], self._limit_margin[1])
 
     def _reset_reference(self):
         # get absolute values of amplitude, frequency and offset
diff --git a/src/gym_electric_motor/reference_generators/sinusoidal_reference_generator.py b/src/gym_electric_motor/reference_generators/sinusoidal_reference_generator.py
index ce309ca..9440877 100644
--- a/src/gym_electric_motor/reference_generators/sinusoidal_reference_generator.py
+++ b/src/gym_electric_motor/reference_generators/sinusoidal_reference_generator.py
@@ -32,15 +32,17 @@ class SinusoidalReferenceGenerator(SubepisodedReferenceGenerator):
         self._amplitude_range = amplitude_range or (0, np.inf)
         self._frequency_range = frequency_range
         self._offset_range = offset_range or (-np.inf, np.inf)
+        self._configured_ranges = self._amplitude_range, self._offset_range
 
     def set_modules(self, physical_system):
         super().set_modules(physical_system)
+        amplitude_range, offset_range = self._configured_ranges
         self._amplitude_range = np.clip(
-            self._amplitude_range,
+            amplitude_range,
             0,
             (self._limit_margin[1] - self._limit_margin[0]) / 2,
         )
-        self._offset_range = np.clip(self._offset_range, self._limit_margin[0], self._limit_margin[1])
+        self._offset_range = np.clip(offset_range, self._limit_margin[0], self._limit_margin[1])
 
     def _reset_reference(self):
         self._amplitude = self._get_current_value(self._amplitude_range)
diff --git a/src/gym_electric_motor/reference_generators/step_reference_generator.py b/src/gym_electric_motor/reference_generators/step_reference_generator.py
index 4ebfd3d..40e78ff 100644
--- a/src/gym_electric_motor/reference_generators/step_reference_generator.py
+++ b/src/gym_electric_motor/reference_generators/step_reference_generator.py
@@ -25,15 +25,17 @@ class StepReferenceGenerator(SubepisodedReferenceGenerator):
         self._amplitude_range = amplitude_range or (0, np.inf)
         self._frequency_range = frequency_range
         self._offset_range = offset_range or (-np.inf, np.inf)
+        self._configured_ranges = self._amplitude_range, self._offset_range
 
     def set_modules(self, physical_system):
         super().set_modules(physical_system)
+        amplitude_range, offset_range = self._configured_ranges
         self._amplitude_range = np.clip(
-            self._amplitude_range,
+            amplitude_range,
             0,
             (self._limit_margin[1] - self._limit_margin[0]) / 2,
         )
-        self._offset_range = np.clip(self._offset_range, self._limit_margin[0], self._limit_margin[1])
+        self._offset_range = np.clip(offset_range, self._limit_margin[0], self._limit_margin[1])
 
     def _reset_reference(self):
         self._amplitude = self._get_current_value(self._amplitude_range)
diff --git a/src/gym_electric_motor/reference_generators/subepisoded_reference_generator.py b/src/gym_electric_motor/reference_generators/subepisoded_reference_generator.py
index 6cf31d8..3b3cc29 100644
--- a/src/gym_electric_motor/reference_generators/subepisoded_reference_generator.py
+++ b/src/gym_electric_motor/reference_generators/subepisoded_reference_generator.py
@@ -35,6 +35,8 @@ class SubepisodedReferenceGenerator(ReferenceGenerator, RandomComponent):
         self.reference_space = Box(-1, 1, shape=(1,), dtype=np.float64)
         self._reference = None
         self._limit_margin = limit_margin
+        # Kept, because the generator might be passed to several environments one after another
+        self._configured_margin = limit_margin
         self._reference_value = 0.0
         self._reference_state = reference_state.lower()
         self._episode_len_range = episode_lengths
@@ -43,6 +45,9 @@ class SubepisodedReferenceGenerator(ReferenceGenerator, RandomComponent):
         self._reference_names = [self._reference_state]
 
     def set_modules(self, physical_system):
+        if self._physical_system is not None and type(self._limit_margin) is tuple:
+            # The current margin belongs to the former physical system
+            self._limit_margin = self._configured_margin
         super().set_modules(physical_system)
         self._referenced_states = set_state_array({self._reference_state: 1}, physical_system.state_names).astype(bool)
         rs = self._referenced_states
diff --git a/src/gym_electric_motor/reference_generators/triangle_reference_generator.py b/src/gym_electric_motor/reference_generators/triangle_reference_generator.py
index 98181d4..819b1e8 100644
--- a/src/gym_electric_motor/reference_generators/triangle_reference_generator.py
+++ b/src/gym_electric_motor/reference_generators/triangle_reference_generator.py
@@ -33,16 +33,18 @@ class TriangularReferenceGenerator(SubepisodedReferenceGenerator):
         self._amplitude_range = amplitude_range or (0, np.inf)
         self._frequency_range = frequency_range
         self._offset_range = offset_range or (-np.inf, np.inf)
+        self._configured_ranges = self._amplitude_range, self._offset_range
 
     def set_modules(self, physical_system):
         super().set_modules(physical_system)
         # but amplitude and offset cannot exceed limit margin
+        amplitude_range, offset_range = self._configured_ranges
         self._amplitude_range = np.clip(
-            self._amplitude_range,
+            amplitude_range,
             0,
             (self._limit_margin[1] - self._limit_margin[0]) / 2,
         )
-        self._offset_range = np.clip(self._offset_range, self._limit_margin[0], self._limit_margin[1])
+        self._offset_range = np.clip(offset_range, self._limit_margin[0], self._limit_margin[1])
 
     def _reset_reference(self):
         # get absolute values of amplitude, frequency and offset
diff --git a/src/gym_electric_motor/reference_generators/wiener_process_reference_generator.py b/src/gym_electric_motor/reference_generators/wiener_process_reference_generator.py
index 861f421..3d31a61 100644
--- a/src/gym_electric_motor/reference_generators/wiener_process_reference_generator.py
+++ b/src/gym_electric_motor/reference_generators/wiener_process_reference_generator.py
@@ -19,12 +19,13 @@ class WienerProcessReferenceGenerator(SubepisodedReferenceGenerator):
         """
         super().__init__(**kwargs)
         self._initial_range = initial_range
+        self._initial_range_is_margin = initial_range is None
         self._current_sigma = 0
         self._sigma_range = sigma_range
 
     def set_modules(self, physical_system):
         super().set_modules(physical_system)
-        if self._initial_range is None:
+        if self._initial_range_is_margin:
             self._initial_range = self._limit_margin
 
     def _reset_reference(self):
-- 
2.43.0


From 154ed2765f75336f79c3579bd3b2b781f3e5a264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:03 +0000
Subject: [PATCH 77/90] fix: WeightedSumOfErrors kept the derived weights of a
 former environment

---
 .../reward_functions/weighted_sum_of_errors.py                 | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gym_electric_motor/reward_functions/weighted_sum_of_errors.py b/src/gym_electric_motor/reward_functions/weighted_sum_of_errors.py
index 27cd620..86604b6 100644
--- a/src/gym_electric_motor/reward_functions/weighted_sum_of_errors.py
+++ b/src/gym_electric_motor/reward_functions/weighted_sum_of_errors.py
@@ -84,10 +84,13 @@ class WeightedSumOfErrors(RewardFunction):
         self._gamma = gamma
         self._bias = bias
         self._violation_reward = violation_reward
+        # Kept, because the reward function might be passed to several environments one after another
+        self._configuration = reward_power, reward_weights, bias, violation_reward
 
     def set_modules(self, physical_system, reference_generator, constraint_monitor):
         super().set_modules(physical_system, reference_generator, constraint_monitor)
         ps = physical_system
+        self._n, self._reward_weights, self._bias, self._violation_reward = self._configuration
         self._state_length = ps.state_space.high - ps.state_space.low
         self._n = set_state_array(self._n, ps.state_names)
         referenced_states = reference_generator.referenced_states
-- 
2.43.0


From ca9a173ef92a7737f515b9029267656b70930d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:14 +0000
Subject: [PATCH 78/90] fix: DeadTimeProcessor kept the default reset actions
 of a former environment

---
 .../physical_system_wrappers/dead_time_processor.py            | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py b/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py
index 0c11f72..2365973 100644
--- a/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py
+++ b/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py
@@ -33,6 +33,7 @@ class DeadTimeProcessor(PhysicalSystemWrapper):
         physical_system(PhysicalSystem (optional)): The inner physical system of this PhysicalSystemWrapper.
         """
         self._reset_actions = reset_action
+        self._default_reset_actions = reset_action is None
         self._steps = int(steps)
         assert self._steps > 0, f'The number of steps has to be greater than 0. A "{steps}" has been passed.'
         self._action_deque = deque(maxlen=steps)
@@ -45,7 +46,7 @@ class DeadTimeProcessor(PhysicalSystemWrapper):
             physical_system(PhysicalSystem): The physical system to be set.
         """
         super().set_physical_system(physical_system)
-        if self._reset_actions is None:
+        if self._default_reset_actions:
             action_space = physical_system.action_space
             if isinstance(action_space, gymnasium.spaces.Discrete):
                 reset_action = 0
-- 
2.43.0


From 69fce9dbaf8809a5c5ed8d50580f5f7e21da9575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:24 +0000
Subject: [PATCH 79/90] fix: LimitConstraint kept the state names of a former
 physical system

---
 src/gym_electric_motor/constraints.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/constraints.py b/src/gym_electric_motor/constraints.py
index 8f66ba8..bfa145b 100644
--- a/src/gym_electric_motor/constraints.py
+++ b/src/gym_electric_motor/constraints.py
@@ -49,6 +49,7 @@ class LimitConstraint(Constraint):
                 - iterable(str): Pass an iterable containing all state names of the states to observe.
         """
         self._observed_state_names = observed_state_names
+        self._observe_all = observed_state_names is not None and "all_states" in observed_state_names
         self._limits = None
         self._observed_states = None
 
@@ -59,7 +60,7 @@ class LimitConstraint(Constraint):
 
     def set_modules(self, ps):
         self._limits = ps.limits
-        if "all_states" in self._observed_state_names:
+        if self._observe_all:
             self._observed_state_names = ps.state_names
         if self._observed_state_names is None:
             self._observed_state_names = []
-- 
2.43.0


From 05275a48a2049eceec551621bd89a2af8a4e9f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:54 +0000
Subject: [PATCH 80/90] fix: use the clipping stage that is passed to the
 torque controller

---
 src/gem_controllers/torque_controller.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gem_controllers/torque_controller.py b/src/gem_controllers/torque_controller.py
index c063cc8..bda66a9 100644
--- a/src/gem_controllers/torque_controller.py
+++ b/src/gem_controllers/torque_controller.py
@@ -86,6 +86,7 @@ class TorqueController(gc.GemController):
         self._current_controller = current_controller
         if env_id is not None and current_controller is None:
             self._current_controller = gc.PICurrentController(env, env_id)
+        self._clipping_stage = clipping_stage
         if env_id is not None and clipping_stage is None:
             if gc.utils.get_motor_type(env_id) in gc.parameter_reader.dc_motors:
                 self._clipping_stage = gc.stages.clipping_stages.AbsoluteClippingStage("TC")
-- 
2.43.0


From 07ea0e9ce11fa53ea3fe839bd81c08705cc73e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:22 +0000
Subject: [PATCH 81/90] fix: build the default torque controller of the speed
 controller for its environment

---
 src/gem_controllers/pi_speed_controller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gem_controllers/pi_speed_controller.py b/src/gem_controllers/pi_speed_controller.py
index e0115fa..0c554ef 100644
--- a/src/gem_controllers/pi_speed_controller.py
+++ b/src/gem_controllers/pi_speed_controller.py
@@ -78,7 +78,7 @@ class PISpeedController(gc.GemController):
         self._speed_control_stage = gc.stages.base_controllers.get(base_speed_controller)("SC")
         self._torque_controller = torque_controller
         if torque_controller is None:
-            self._torque_controller = TorqueController()
+            self._torque_controller = TorqueController(_env, env_id)
         self._torque_reference = np.array([])
         self._anti_windup_stage = gc.stages.AntiWindup("SC")
         self._clipping_stage = gc.stages.clipping_stages.AbsoluteClippingStage("SC")
-- 
2.43.0


From e48852823653bd050c2b5481d7ea1e2fde2518a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:56 +0000
Subject: [PATCH 82/90] fix: observe the currents of three phase motors at the
 angle of the observation

The phase currents of synchronous motors and the field oriented currents of
induction motors were transformed with the angle of the beginning of the last
switching interval and so did not belong to the observed angle.
---
 .../physical_systems/physical_systems.py                  | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/physical_systems.py b/src/gym_electric_motor/physical_systems/physical_systems.py
index 5ab281f..9620a19 100644
--- a/src/gym_electric_motor/physical_systems/physical_systems.py
+++ b/src/gym_electric_motor/physical_systems/physical_systems.py
@@ -517,10 +517,10 @@ class SynchronousMotorSystem(ThreePhaseMotorSystem):
         torque = self._electrical_motor.torque(ode_state[self._motor_ode_idx])
         mechanical_state = ode_state[self._load_ode_idx]
         i_dq = ode_state[self._ode_currents_idx]
-        i_abc = list(self.dq_to_abc_space(i_dq, eps))
         eps = ode_state[self._ode_epsilon_idx] % (2 * np.pi)
         if eps > np.pi:
             eps -= 2 * np.pi
+        i_abc = list(self.dq_to_abc_space(i_dq, eps))
 
         system_state = np.concatenate((mechanical_state, [torque], i_abc, i_dq, u_in, u_dq, [eps], u_sup))
         return system_state / self._limits
@@ -649,10 +649,10 @@ class ExternallyExcitedSynchronousMotorSystem(SynchronousMotorSystem):
         torque = self._electrical_motor.torque(ode_state[self._motor_ode_idx])
         mechanical_state = ode_state[self._load_ode_idx]
         i_dq_e = ode_state[self._ode_currents_idx]
-        i_abc = list(self.dq_to_abc_space(i_dq_e[:2], eps))
         eps = ode_state[self._ode_epsilon_idx] % (2 * np.pi)
         if eps > np.pi:
             eps -= 2 * np.pi
+        i_abc = list(self.dq_to_abc_space(i_dq_e[:2], eps))
 
         system_state = np.concatenate((mechanical_state, [torque], i_abc, i_dq_e, u_in[:3], u_dq_e, [eps], u_sup))
         return system_state / self._limits
@@ -804,6 +804,7 @@ class SquirrelCageInductionMotorSystem(ThreePhaseMotorSystem):
         self._k += 1
         torque = self._electrical_motor.torque(ode_state[self._motor_ode_idx])
         mechanical_state = ode_state[self._load_ode_idx]
+        eps_fs = self.calculate_field_angle(ode_state)
         i_dq = self.alphabeta_to_dq_space(ode_state[self._ode_currents_idx], eps_fs)
         i_abc = list(self.dq_to_abc_space(i_dq, eps_fs))
 
@@ -1032,6 +1033,9 @@ class DoublyFedInductionMotorSystem(ThreePhaseMotorSystem):
         torque = self._electrical_motor.torque(ode_state[self._motor_ode_idx])
         mechanical_state = ode_state[self._load_ode_idx]
 
+        eps_field = self.calculate_field_angle(ode_state)
+        eps_el = ode_state[self._ode_epsilon_idx]
+
         i_sdq = self.alphabeta_to_dq_space(ode_state[self._ode_currents_idx], eps_field)
         i_sabc = list(self.dq_to_abc_space(i_sdq, eps_field))
 
-- 
2.43.0


From 6833b93deaa6c6f6f2ce4823a91071dcd84a274e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:57 +0000
Subject: [PATCH 83/90] fix: the transformations do not modify the passed
 electrical angle

---
 .../physical_systems/physical_systems.py                  | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/physical_systems.py b/src/gym_electric_motor/physical_systems/physical_systems.py
index 9620a19..49de8c9 100644
--- a/src/gym_electric_motor/physical_systems/physical_systems.py
+++ b/src/gym_electric_motor/physical_systems/physical_systems.py
@@ -362,7 +362,7 @@ class ThreePhaseMotorSystem(SCMLSystem):
             (quantity_d, quantity_q): The quantities in the dq-space
         """
         if normed_epsilon:
-            epsilon_el *= np.pi
+            epsilon_el = epsilon_el * np.pi
         dq_quantity = self._electrical_motor.q_inv(self._electrical_motor.t_23(abc_quantities), epsilon_el)
         return dq_quantity
 
@@ -379,7 +379,7 @@ class ThreePhaseMotorSystem(SCMLSystem):
             (quantity_a, quantity_b, quantity_c): The quantities in the abc-space
         """
         if normed_epsilon:
-            epsilon_el *= np.pi
+            epsilon_el = epsilon_el * np.pi
         return self._electrical_motor.t_32(self._electrical_motor.q(dq_quantities, epsilon_el))
 
     def alphabeta_to_dq_space(self, alphabeta_quantities, epsilon_el, normed_epsilon=False):
@@ -395,7 +395,7 @@ class ThreePhaseMotorSystem(SCMLSystem):
             (quantity_d, quantity_q): The quantities in the dq-space
         """
         if normed_epsilon:
-            epsilon_el *= np.pi
+            epsilon_el = epsilon_el * np.pi
         dq_quantity = self._electrical_motor.q_inv(alphabeta_quantities, epsilon_el)
         return dq_quantity
 
@@ -412,7 +412,7 @@ class ThreePhaseMotorSystem(SCMLSystem):
             (quantity_alpha, quantity_beta): The quantities in the alphabeta-space
         """
         if normed_epsilon:
-            epsilon_el *= np.pi
+            epsilon_el = epsilon_el * np.pi
         return self._electrical_motor.q(dq_quantities, epsilon_el)
 
 
-- 
2.43.0


From 3b0ea9606b115f01d4ee615f238ef75177f7caf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:06 +0000
Subject: [PATCH 84/90] fix: the observed reference of the environment is not
 the array returned to the caller

---
 src/gym_electric_motor/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/core.py b/src/gym_electric_motor/core.py
index a50704d..ba52a7d 100644
--- a/src/gym_electric_motor/core.py
+++ b/src/gym_electric_motor/core.py
@@ -323,7 +323,7 @@ class ElectricMotorEnvironment(gymnasium.core.Env):
         reference, next_ref, _ = self.reference_generator.reset(state)
         self._reward_function.reset(state, reference)
         self.current_state = state
-        self.current_observation = (state, next_ref)
+        self.current_observation = (state, copy.copy(next_ref))
         self._call_callbacks("on_reset_end", state, reference)
         self._terminated = False
 
@@ -363,7 +363,7 @@ class ElectricMotorEnvironment(gymnasium.core.Env):
         self._terminated = violation_degree >= 1.0
         ref_next = self.reference_generator.get_reference_observation(state)
 
-        self.current_observation = (state, ref_next)
+        self.current_observation = (state, copy.copy(ref_next))
 
         self._call_callbacks(
             "on_step_end",
-- 
2.43.0


From 495f2a08c7f2ef80a2532465e15a8b61ff5fda62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:38 +0000
Subject: [PATCH 85/90] fix: polynomial static loads without an own inertia can
 be created

---
 .../mechanical_loads/polynomial_static_load.py                 | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_systems/mechanical_loads/polynomial_static_load.py b/src/gym_electric_motor/physical_systems/mechanical_loads/polynomial_static_load.py
index 108faa0..9aad368 100644
--- a/src/gym_electric_motor/physical_systems/mechanical_loads/polynomial_static_load.py
+++ b/src/gym_electric_motor/physical_systems/mechanical_loads/polynomial_static_load.py
@@ -80,7 +80,8 @@ class PolynomialStaticLoad(MechanicalLoad):
         self._b = self._load_parameter["b"]
         self._c = self._load_parameter["c"]
         # Speed value at which the linear behavior switches to constant
-        self._omega_lim = self._a / self._j_total * self.tau_decay
+        # The inertia of a load without an own inertia follows with the rotor (see set_j_rotor)
+        self._omega_lim = self._a / self._j_total * self.tau_decay if self._j_total else np.inf
         # Slope for the linear growth of the constant load part around zero speed
         self._omega_linear_factor = self._j_total / self.tau_decay
 
-- 
2.43.0


From 62925f710ce8987f2fd144be58a2a33e4ae64c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:18 +0000
Subject: [PATCH 86/90] fix: hand only the speed of a load with several states
 to the induction motors

---
 src/gym_electric_motor/physical_systems/physical_systems.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/physical_systems.py b/src/gym_electric_motor/physical_systems/physical_systems.py
index 49de8c9..d878f08 100644
--- a/src/gym_electric_motor/physical_systems/physical_systems.py
+++ b/src/gym_electric_motor/physical_systems/physical_systems.py
@@ -825,7 +825,7 @@ class SquirrelCageInductionMotorSystem(ThreePhaseMotorSystem):
         motor_state = self._electrical_motor.reset(
             state_space=self.state_space,
             state_positions=self.state_positions,
-            omega=mechanical_state,
+            omega=mechanical_state[self._omega_ode_idx],
         )
         ode_state = np.concatenate((mechanical_state, motor_state))
         u_sup = self.supply.reset()
@@ -1074,7 +1074,7 @@ class DoublyFedInductionMotorSystem(ThreePhaseMotorSystem):
         motor_state = self._electrical_motor.reset(
             state_space=self.state_space,
             state_positions=self.state_positions,
-            omega=mechanical_state,
+            omega=mechanical_state[self._omega_ode_idx],
         )
         ode_state = np.concatenate((mechanical_state, motor_state))
         u_sup = self.supply.reset()
-- 
2.43.0


From 1bb8222e3aa970bf64e2fb7c1c11a37b8e8b4f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:25 +0000
Subject: [PATCH 87/90] fix: order the initial load states as in the load ode

---
 .../physical_systems/mechanical_loads/mechanical_load.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py b/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
index ef71196..2ebfba4 100644
--- a/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
+++ b/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
@@ -186,7 +186,7 @@ class MechanicalLoad(RandomComponent):
         self.next_generator()
         if self._initializer:
             self.initialize(state_space, state_positions, nominal_state)
-            return np.asarray(list(self._initial_states.values()))
+            return np.asarray([self._initial_states[state] for state in self._state_names])
         else:
             return np.zeros_like(self._state_names, dtype=float)
 
-- 
2.43.0


From 2cfd2513b1b0ba7027f7739fd0f4d8935ec92af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:23 +0000
Subject: [PATCH 88/90] fix: use user-defined constraints themselves, copy only
 the supplied ones

---
 src/gym_electric_motor/core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gym_electric_motor/core.py b/src/gym_electric_motor/core.py
index ba52a7d..4032fdc 100644
--- a/src/gym_electric_motor/core.py
+++ b/src/gym_electric_motor/core.py
@@ -32,7 +32,7 @@ from matplotlib.figure import Figure
 
 import gym_electric_motor as gem
 
-from .constraints import Constraint, LimitConstraint
+from .constraints import Constraint, LimitConstraint, SquaredConstraint
 
 
 @dataclass
@@ -260,9 +260,9 @@ class ElectricMotorEnvironment(gymnasium.core.Env):
             cm = constraints
         else:
             limit_constraints = [constraint for constraint in constraints if isinstance(constraint, str)]
-            # The constraints are copied, because the (default) instances might be passed to several environments
+            # The supplied constraints are copied, because the (default) instances might be passed to several environments
             additional_constraints = [
-                copy.copy(constraint) if isinstance(constraint, Constraint) else constraint
+                copy.copy(constraint) if type(constraint) in (LimitConstraint, SquaredConstraint) else constraint
                 for constraint in constraints
                 if not isinstance(constraint, str)
             ]
-- 
2.43.0


From 4741eea0f59093485e2c916ad8803941ffaceb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:58 +0000
Subject: [PATCH 89/90] fix: hand the kwargs of a multiple reference generator
 to its sub generators only

---
 .../reference_generators/multiple_reference_generator.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/reference_generators/multiple_reference_generator.py b/src/gym_electric_motor/reference_generators/multiple_reference_generator.py
index b0d9d01..e55c3dd 100644
--- a/src/gym_electric_motor/reference_generators/multiple_reference_generator.py
+++ b/src/gym_electric_motor/reference_generators/multiple_reference_generator.py
@@ -18,7 +18,7 @@ class MultipleReferenceGenerator(ReferenceGenerator, RandomComponent):
                 will be passed to each sub_generator.
             kwargs: All kwargs of the environment. Passed to the sub_generators, if no sub_args are passed.
         """
-        ReferenceGenerator.__init__(self, **kwargs)
+        ReferenceGenerator.__init__(self)
         RandomComponent.__init__(self)
         self.reference_space = Box(-1, 1, shape=(1,), dtype=np.float64)
         if isinstance(sub_args, dict):
-- 
2.43.0


From bae7cc23145c54996894e8045ec869528faf5065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:57 +0000
Subject: [PATCH 90/90] fix: show all data when a dashboard is rendered once at
 the end

---
 src/gym_electric_motor/visualization/motor_dashboard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/visualization/motor_dashboard.py b/src/gym_electric_motor/visualization/motor_dashboard.py
index bb673a3..8afa29e 100644
--- a/src/gym_electric_motor/visualization/motor_dashboard.py
+++ b/src/gym_electric_motor/visualization/motor_dashboard.py
@@ -346,7 +346,7 @@ class MotorDashboard(MotorDashboardLegacy):
 
     def on_close(self):
         if self.render_mode == RenderMode.FigureOnce:
-            self.render()
+            self.force_render()
         super().on_close()
 
     def on_step_end(self, k, state, reference, reward, terminated):
-- 
2.43.0

