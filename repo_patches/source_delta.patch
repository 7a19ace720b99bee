From 66897dd878ebc1d2436ee48daea2d6e7d30eedd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:39 +0000
Subject: [PATCH 01/17] fix: Moon latitude applies both of its argument
 corrections (misplaced parenthesis in equation 3.49)

---
 src/openspace/bodies/celestial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openspace/bodies/celestial.py b/src/openspace/bodies/celestial.py
index 7838e72..4749e71 100644
--- a/src/openspace/bodies/celestial.py
+++ b/src/openspace/bodies/celestial.py
@@ -313,7 +313,7 @@ class Moon:
 
         # Equation 3.49
         beta = (
-            a0 * sin(f + lam - l0 + a1 * sin(2.0 * f + a2 * sin(lp)))
+            a0 * sin(f + lam - l0 + a1 * sin(2.0 * f) + a2 * sin(lp))
             - a3 * sin(f - 2.0 * d)
             + a4 * sin(l + f - 2.0 * d)
             - a5 * sin(-l + f - 2.0 * d)
-- 
2.43.0


From 4530ce6506ac273bfc96c19b7e1dab1ae2882f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:41 +0000
Subject: [PATCH 02/17] fix: finite maneuvers consume propellant instead of
 creating it

---
 src/openspace/bodies/artificial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openspace/bodies/artificial.py b/src/openspace/bodies/artificial.py
index ab06592..e94690f 100644
--- a/src/openspace/bodies/artificial.py
+++ b/src/openspace/bodies/artificial.py
@@ -155,7 +155,7 @@ class Spacecraft:
             self.isp,
         )
         m_spec: float = self.m_dot / self.total_mass()
-        dt: float = (-1 / m_spec) * (1 - e ** (m_spec * gcrf_thrust.magnitude() / (-self.isp * m_spec * SEA_LEVEL_G)))
+        dt: float = (1 / m_spec) * (1 - e ** (m_spec * gcrf_thrust.magnitude() / (-self.isp * m_spec * SEA_LEVEL_G)))
         self.propellant_mass -= self.m_dot * dt
 
     def sma(self) -> float:
-- 
2.43.0


From c37faec9a6d2e59d65ea8f411e86029724ae3596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:43 +0000
Subject: [PATCH 03/17] fix: finite maneuvers thrust along the commanded RIC
 direction (transform was inverted)

---
 src/openspace/bodies/artificial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openspace/bodies/artificial.py b/src/openspace/bodies/artificial.py
index e94690f..51823fc 100644
--- a/src/openspace/bodies/artificial.py
+++ b/src/openspace/bodies/artificial.py
@@ -147,7 +147,7 @@ class Spacecraft:
         :param dt: duration of the maneuver in days
         :type dt: float
         """
-        gcrf_thrust: Vector3D = HCW.frame_matrix(self.current_state()).multiply_vector(ric_dv)
+        gcrf_thrust: Vector3D = HCW.frame_matrix(self.current_state()).transpose().multiply_vector(ric_dv)
         self.propagator.maneuver(
             gcrf_thrust,
             self.m_dot,
-- 
2.43.0


From d2839554d90dc33ca9f04248a37269f7b16d6a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:45 +0000
Subject: [PATCH 04/17] fix: thrust accounts for the mass spent in earlier
 steps of a long burn

---
 src/openspace/propagators/inertial.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/openspace/propagators/inertial.py b/src/openspace/propagators/inertial.py
index 82e660a..b4e0721 100644
--- a/src/openspace/propagators/inertial.py
+++ b/src/openspace/propagators/inertial.py
@@ -73,6 +73,9 @@ class RK4:
             self.state.velocity.plus(da.scaled(h)),
         )
 
+        # Mass spent during this step is gone when the next one starts
+        self.m0 -= self.m_dot * h
+
     def maneuver(self, gcrf_thrust: Vector3D, m_dot: float, m0: float, isp: float) -> None:
         """propagate the state using continuous thrust principles
 
-- 
2.43.0


From e607154bfd70772aacea284139df8a514d28fb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:47 +0000
Subject: [PATCH 05/17] fix: an interrupted propagation or burn restores the
 step size and stops thrusting

---
 src/openspace/propagators/inertial.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/openspace/propagators/inertial.py b/src/openspace/propagators/inertial.py
index b4e0721..9bc1f3c 100644
--- a/src/openspace/propagators/inertial.py
+++ b/src/openspace/propagators/inertial.py
@@ -96,9 +96,11 @@ class RK4:
         self.m0 = m0
         self.m_dot = m_dot
         self.isp = isp
-        self.step_to_epoch(self.state.epoch.plus_days(dv_duration / SECONDS_IN_DAY))
-        self.m0 = 0
-        self.m_dot = 0
+        try:
+            self.step_to_epoch(self.state.epoch.plus_days(dv_duration / SECONDS_IN_DAY))
+        finally:
+            self.m0 = 0
+            self.m_dot = 0
 
     def step_to_epoch(self, epoch: Epoch) -> None:
         """advance the propagator state to the argument epoch
@@ -121,13 +123,14 @@ class RK4:
             self.step_size = dt / num_steps
 
         # Step until desired epoch is achieved
-        step_n = 0
-        while step_n < num_steps:
-            self.step()
-            step_n += 1
-
-        # Reset step size
-        self.step_size = old_step
+        try:
+            step_n = 0
+            while step_n < num_steps:
+                self.step()
+                step_n += 1
+        finally:
+            # Reset step size
+            self.step_size = old_step
 
     def thrust_vector(self, dt: float) -> Vector3D:
         """calculate the acceleration vector due to thrust
-- 
2.43.0


From aa890a4cbc6f0844c8d0ef6a26d79cd045eb7f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:49 +0000
Subject: [PATCH 06/17] fix: switching perturbations off on a state lasts
 through copies and propagation

---
 src/openspace/coordinates/states.py   | 10 ++++++++++
 src/openspace/propagators/inertial.py |  7 ++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/openspace/coordinates/states.py b/src/openspace/coordinates/states.py
index 94c7602..9bbb7b7 100644
--- a/src/openspace/coordinates/states.py
+++ b/src/openspace/coordinates/states.py
@@ -137,6 +137,16 @@ class GCRF(State):
         #: boolean to determine if perturbations are modeled during propagation
         self.use_perturbations: bool = True
 
+    def copy(self) -> "GCRF":
+        """create a duplicate of the calling state that keeps its force model selection
+
+        :return: state with matching epoch, position, velocity, and perturbation setting
+        :rtype: GCRF
+        """
+        state: GCRF = super().copy()
+        state.use_perturbations = self.use_perturbations
+        return state
+
     def acceleration_from_gravity(self) -> Vector3D:
         """calculates the gravity due to a nonspherical earth
 
diff --git a/src/openspace/propagators/inertial.py b/src/openspace/propagators/inertial.py
index 9bc1f3c..4aaf106 100644
--- a/src/openspace/propagators/inertial.py
+++ b/src/openspace/propagators/inertial.py
@@ -51,15 +51,18 @@ class RK4:
         ddays: float = dsecs / SECONDS_IN_DAY
         epoch_1 = epoch_0.plus_days(ddays)
         y1: GCRF = GCRF(epoch_1, y[0].plus(k1[0].scaled(dsecs)), y[1].plus(k1[1].scaled(dsecs)))
+        y1.use_perturbations = self.state.use_perturbations
         y1.thrust = self.thrust_vector(dsecs)
         k2: List[Vector3D] = y1.derivative()
 
         y2: GCRF = GCRF(epoch_1, y[0].plus(k2[0].scaled(dsecs)), y[1].plus(k2[1].scaled(dsecs)))
+        y2.use_perturbations = self.state.use_perturbations
         y2.thrust = self.thrust_vector(dsecs)
         k3: List[Vector3D] = y2.derivative()
 
         epoch_2 = epoch_1.plus_days(ddays)
         y3: GCRF = GCRF(epoch_2, y[0].plus(k3[0].scaled(h)), y[1].plus(k3[1].scaled(h)))
+        y3.use_perturbations = self.state.use_perturbations
         y3.thrust = self.thrust_vector(dsecs * 2)
         k4: List[Vector3D] = y3.derivative()
 
@@ -67,11 +70,13 @@ class RK4:
         dv: Vector3D = k1[0].plus(k2[0].scaled(2).plus(k3[0].scaled(2).plus(k4[0]))).scaled(coeff)
         da: Vector3D = k1[1].plus(k2[1].scaled(2).plus(k3[1].scaled(2).plus(k4[1]))).scaled(coeff)
 
-        self.state = GCRF(
+        next_state: GCRF = GCRF(
             epoch_2,
             self.state.position.plus(dv.scaled(h)),
             self.state.velocity.plus(da.scaled(h)),
         )
+        next_state.use_perturbations = self.state.use_perturbations
+        self.state = next_state
 
         # Mass spent during this step is gone when the next one starts
         self.m0 -= self.m_dot * h
-- 
2.43.0


From 35276399f2e39e845fe3ea3f9957b3e0788577bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:52 +0000
Subject: [PATCH 07/17] fix: visual magnitude uses the size and albedo of the
 target, not of the observer

---
 src/openspace/bodies/artificial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/openspace/bodies/artificial.py b/src/openspace/bodies/artificial.py
index 51823fc..47bc010 100644
--- a/src/openspace/bodies/artificial.py
+++ b/src/openspace/bodies/artificial.py
@@ -351,7 +351,7 @@ class Spacecraft:
         :rtype: float
         """
         # Store the target's body radius
-        r: float = self.body_radius
+        r: float = target.body_radius
 
         # Calculate the range to the target
         dist: float = self.range(target)
@@ -360,7 +360,7 @@ class Spacecraft:
         phi: float = pi - self.sun_angle(target)
 
         # Calculate the flux and vismag
-        fdiff: float = (2 / 3) * self.albedo * r * r / (pi * dist * dist) * ((sin(phi) + (pi - phi) * cos(phi)))
+        fdiff: float = (2 / 3) * target.albedo * r * r / (pi * dist * dist) * ((sin(phi) + (pi - phi) * cos(phi)))
         return -26.74 - 2.5 * log10(fdiff)
 
     def sun_angle(self, target: "Spacecraft") -> float:
-- 
2.43.0


From 8b1e51be50be2f3461d2b26d63a974e348cc403d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:53 +0000
Subject: [PATCH 08/17] fix: a failed attitude command no longer leaves the
 spacecraft slewing without an end time

---
 src/openspace/bodies/artificial.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/openspace/bodies/artificial.py b/src/openspace/bodies/artificial.py
index 47bc010..b9a7d73 100644
--- a/src/openspace/bodies/artificial.py
+++ b/src/openspace/bodies/artificial.py
@@ -279,10 +279,10 @@ class Spacecraft:
         """store attitude with payload toward earth and panels along orbit normal"""
         # Include slew duration if not already in lvlh
         if self.steering != Spacecraft.STEERING_MODES[0]:
-            self.steering = Spacecraft.STEERING_MODES[0]
-            self.slewing = True
             t: float = self.body_z.angle(self.position().scaled(-1)) * self.slew_scalar
             self.slew_stop = self.current_epoch().plus_days(t)
+            self.steering = Spacecraft.STEERING_MODES[0]
+            self.slewing = True
 
         self.update_attitude()
 
@@ -290,10 +290,10 @@ class Spacecraft:
         """store attitude with payload opposite to Sun"""
         # Include slew duration if not already sun-pointing
         if self.steering != Spacecraft.STEERING_MODES[1]:
-            self.steering = Spacecraft.STEERING_MODES[1]
-            self.slewing = True
             t: float = self.body_z.angle(self.sun_vector().scaled(-1)) * self.slew_scalar
             self.slew_stop = self.current_epoch().plus_days(t)
+            self.steering = Spacecraft.STEERING_MODES[1]
+            self.slewing = True
 
         self.update_attitude()
 
@@ -305,11 +305,11 @@ class Spacecraft:
         """
         # Include slew duration if not already target-pointing
         if self.steering != Spacecraft.STEERING_MODES[2]:
+            t: float = self.body_z.angle(self.target_vector(target)) * self.slew_scalar
+            self.slew_stop = self.current_epoch().plus_days(t)
             self.steering = Spacecraft.STEERING_MODES[2]
             self.tracked_target = target
             self.slewing = True
-            t: float = self.body_z.angle(self.target_vector(target)) * self.slew_scalar
-            self.slew_stop = self.current_epoch().plus_days(t)
 
         self.update_attitude()
 
-- 
2.43.0


From b99de7de5a93362e6bb7ec24613a0ca43769ad45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:56 +0000
Subject: [PATCH 09/17] fix: tracking a new target replaces the old one, with
 its slew sized at a common epoch

---
 src/openspace/bodies/artificial.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/openspace/bodies/artificial.py b/src/openspace/bodies/artificial.py
index b9a7d73..9463353 100644
--- a/src/openspace/bodies/artificial.py
+++ b/src/openspace/bodies/artificial.py
@@ -303,8 +303,12 @@ class Spacecraft:
         :param target: spacecraft to be tracked
         :type target: Spacecraft
         """
-        # Include slew duration if not already target-pointing
-        if self.steering != Spacecraft.STEERING_MODES[2]:
+        # Include slew duration if not already pointing at this target
+        if self.steering != Spacecraft.STEERING_MODES[2] or self.tracked_target is not target:
+            # Step the target if epochs are not in sync so that the slew is sized by where it is now
+            if target.current_epoch().value != self.current_epoch().value:
+                target.step_to_epoch(self.current_epoch())
+
             t: float = self.body_z.angle(self.target_vector(target)) * self.slew_scalar
             self.slew_stop = self.current_epoch().plus_days(t)
             self.steering = Spacecraft.STEERING_MODES[2]
-- 
2.43.0


From 4396c3b0468ae8632aaf203ab4328716d50b8cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:57 +0000
Subject: [PATCH 10/17] fix: maneuvers refresh the attitude, and impulsive ones
 keep the step size and force model

---
 src/openspace/bodies/artificial.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/openspace/bodies/artificial.py b/src/openspace/bodies/artificial.py
index 9463353..276967e 100644
--- a/src/openspace/bodies/artificial.py
+++ b/src/openspace/bodies/artificial.py
@@ -135,9 +135,12 @@ class Spacecraft:
         :param ric_burn: burn vector with components of radial, in-track, and cross-track (km/s)
         :type ric_burn: Vector3D
         """
-        self.propagator = RK4(
-            StateConvert.hcw.to_gcrf(HCW(self.current_epoch(), Vector3D(0, 0, 0), ric_burn), self.current_state())
+        state: GCRF = StateConvert.hcw.to_gcrf(
+            HCW(self.current_epoch(), Vector3D(0, 0, 0), ric_burn), self.current_state()
         )
+        state.use_perturbations = self.propagator.state.use_perturbations
+        self.propagator.state = state
+        self.update_attitude()
 
     def finite_maneuver(self, ric_dv: Vector3D) -> None:
         """perform a maneuver using ric acceleration accross a specified time
@@ -157,6 +160,7 @@ class Spacecraft:
         m_spec: float = self.m_dot / self.total_mass()
         dt: float = (1 / m_spec) * (1 - e ** (m_spec * gcrf_thrust.magnitude() / (-self.isp * m_spec * SEA_LEVEL_G)))
         self.propellant_mass -= self.m_dot * dt
+        self.update_attitude()
 
     def sma(self) -> float:
         """calculate the semi-major axis of the calling spacecraft
-- 
2.43.0


From 3e860f9c1b8080d5081a48dccfe8357a827ea49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:59 +0000
Subject: [PATCH 11/17] fix: acquiring a seed at another epoch starts the
 filter from its state at the current epoch

---
 src/openspace/bodies/artificial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/openspace/bodies/artificial.py b/src/openspace/bodies/artificial.py
index 276967e..3be766f 100644
--- a/src/openspace/bodies/artificial.py
+++ b/src/openspace/bodies/artificial.py
@@ -176,11 +176,11 @@ class Spacecraft:
         :param seed: the estimated state of the satellite to be tracked
         :type seed: Spacecraft
         """
-
+        # Track first so that the seed is at the current epoch when the filter starts
+        self.track_state(seed)
         self.filter = RelativeKalman(
             self.current_epoch(), Hill(StateConvert.gcrf.to_hcw(self.current_state(), seed.current_state()), self.sma())
         )
-        self.track_state(seed)
 
     def observe_wfov(self, target: "Spacecraft") -> SpaceObservation:
         """produce a simulated observation from the wfov
-- 
2.43.0


From 55ff46de11236b602761ffd751bf1fadaff7f0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:01 +0000
Subject: [PATCH 12/17] fix: an observation that fails part-way leaves the
 filter estimate untouched

---
 src/openspace/estimation/filtering.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/openspace/estimation/filtering.py b/src/openspace/estimation/filtering.py
index 04c7deb..39b26e8 100644
--- a/src/openspace/estimation/filtering.py
+++ b/src/openspace/estimation/filtering.py
@@ -132,6 +132,20 @@ class RelativeKalman:
     def process(self, ob: SpaceObservation) -> None:
         """include a new observation into the current estimation
 
+        :param ob: observation to be added into the system
+        :type ob: SpaceObservation
+        """
+        epoch, x00, p00, state = self.epoch, self.x00, self.p00, self.propagator.state
+        try:
+            self._incorporate(ob)
+        except BaseException:
+            # An observation that cannot be processed leaves the estimate as it was
+            self.epoch, self.x00, self.p00, self.propagator.state = epoch, x00, p00, state
+            raise
+
+    def _incorporate(self, ob: SpaceObservation) -> None:
+        """predict to the time of the observation and correct with it
+
         :param ob: observation to be added into the system
         :type ob: SpaceObservation
         """
-- 
2.43.0


From 91671d054e0f6ee26aa384fe9f6ce5c205c48707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:03 +0000
Subject: [PATCH 13/17] fix: angular noise can be applied to vectors along the
 polar axis

---
 src/openspace/math/linalg.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/openspace/math/linalg.py b/src/openspace/math/linalg.py
index 4df3fe1..5dc2bd0 100644
--- a/src/openspace/math/linalg.py
+++ b/src/openspace/math/linalg.py
@@ -168,9 +168,11 @@ class Vector3D:
         :return: new vector offset using gaussian distribution for the angle
         :rtype: Vector3D
         """
-        return self.rotation_about_axis(self.cross(Vector3D(0, 0, 1)), gauss(0, ang_err)).rotation_about_axis(
-            self, uniform(0, 2 * pi)
-        )
+        axis: Vector3D = self.cross(Vector3D(0, 0, 1))
+        if axis.magnitude() == 0:
+            # Any perpendicular axis will do when pointing at a pole
+            axis = self.cross(Vector3D(1, 0, 0))
+        return self.rotation_about_axis(axis, gauss(0, ang_err)).rotation_about_axis(self, uniform(0, 2 * pi))
 
     def __str__(self) -> str:
         """overrides the string method so the elements can be viewed
-- 
2.43.0


From 557f2a27506655fcd5cfd3de3770ada4aa2e0c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:17 +0000
Subject: [PATCH 14/17] fix: geodetic latitude of a site at or near a pole
 (asin left its domain or lost half its digits)

---
 src/openspace/coordinates/positions.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/openspace/coordinates/positions.py b/src/openspace/coordinates/positions.py
index 026b5cf..0d304aa 100644
--- a/src/openspace/coordinates/positions.py
+++ b/src/openspace/coordinates/positions.py
@@ -1,4 +1,4 @@
-from math import asin, atan2, cos, pi, sin, sqrt
+from math import atan2, cos, pi, sin, sqrt
 
 from openspace.bodies.celestial import Earth
 from openspace.math.functions import sign
@@ -252,8 +252,7 @@ class _PositionConvertITRF:
 
         # Equation 2.77f
         n: float = a * sqrt(1.0 + eps2 * d * d / b2)
-        arg = (eps2 + 1.0) * (d / n)
-        lamb: float = asin(arg)
+        lamb: float = atan2(z + eps2 * d, rho)
 
         # Equation 2.77g
         h: float = rho * cos(lamb) + z * sin(lamb) - a2 / n
-- 
2.43.0


From 5ace537493b1f2bcc40b982a2d1434202d389e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:10 +0000
Subject: [PATCH 15/17] fix: Gauss method solves eccentric orbits (its
 iteration left the domain of the elliptic formula)

---
 src/openspace/estimation/iod.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/openspace/estimation/iod.py b/src/openspace/estimation/iod.py
index 91dd2d0..3504806 100644
--- a/src/openspace/estimation/iod.py
+++ b/src/openspace/estimation/iod.py
@@ -1,4 +1,4 @@
-from math import asin, atan2, cos, pi, sin, sqrt
+from math import asin, asinh, atan2, cos, pi, sin, sinh, sqrt
 
 from openspace.bodies.celestial import Earth
 from openspace.coordinates.elements import ClassicalElements
@@ -143,6 +143,15 @@ class Gauss:
         :return: w(omega)
         :rtype: float
         """
-        g: float = 2 * asin(sqrt(w))
-        sg: float = sin(g)
-        return (2 * g - sin(2 * g)) / (sg * sg * sg)
+        g: float
+        sg: float
+        if w > 0:
+            g = 2 * asin(sqrt(w))
+            sg = sin(g)
+            return (2 * g - sin(2 * g)) / (sg * sg * sg)
+        elif w < 0:
+            # hyperbolic counterpart, met on the way to the solution of an eccentric orbit
+            g = 2 * asinh(sqrt(-w))
+            sg = sinh(g)
+            return (sinh(2 * g) - 2 * g) / (sg * sg * sg)
+        return 4 / 3
-- 
2.43.0


From e88e0ac198bb27d5ab77dd6b94d1dd395a1e58b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:10 +0000
Subject: [PATCH 16/17] fix: Gauss method keeps the eccentricity when observed
 a quarter turn from perigee

---
 src/openspace/estimation/iod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openspace/estimation/iod.py b/src/openspace/estimation/iod.py
index 3504806..fe794a6 100644
--- a/src/openspace/estimation/iod.py
+++ b/src/openspace/estimation/iod.py
@@ -76,7 +76,7 @@ class Gauss:
         if ta < 0:
             ta += 2 * pi
 
-        e: float = ecosva / cos(ta)
+        e: float = sqrt(ecosva * ecosva + esinva * esinva)
 
         aop: float = ua - ta
         if aop < 0:
-- 
2.43.0


From 03e9d56be9ae09b40df870fb5f79dfb9d8bb6b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:10 +0000
Subject: [PATCH 17/17] fix: elements of a circular orbit (rounding took the
 eccentricity out of its domain)

---
 src/openspace/math/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openspace/math/functions.py b/src/openspace/math/functions.py
index c6dcfde..ec8fb17 100644
--- a/src/openspace/math/functions.py
+++ b/src/openspace/math/functions.py
@@ -173,7 +173,7 @@ class Eccentricity:
            but :math:`km` is the preferred unit throughout this package to ensure computational
            consistency and accuracy.
         """
-        return sqrt(1 - p / a)
+        return sqrt(max(0.0, 1 - p / a))
 
 
 class Flattening:
-- 
2.43.0

