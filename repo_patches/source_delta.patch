From 0350a3581aafcb4bb2dda8e3e754c3074bedfd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:13 +0000
Subject: [PATCH 01/61] fix: neural CA with different internal and external
 channel counts

The inherited identity layer maps the external channels onto the internal
ones, but the network expects every external channel once followed by the
neighborhood channels, so forward raised for any internal != external.
---
 yuca/ca/neural.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/yuca/ca/neural.py b/yuca/ca/neural.py
index 014c05e..58474af 100644
--- a/yuca/ca/neural.py
+++ b/yuca/ca/neural.py
@@ -262,6 +262,22 @@ class NCA(CA):
 
         np.save(filepath, config)
 
+    def initialize_id_layer(self):
+        """
+        the network sees every external channel once, followed by the 
+        neighborhood channels, see initialize_weight_layer
+        """
+
+        self.id_layer = nn.Conv2d(self.external_channels, \
+                self.external_channels, self.id_dim, \
+                padding=(self.id_dim - 1) // 2, \
+                groups=self.external_channels, \
+                padding_mode=self.conv_mode, bias=False)
+
+        for param in self.id_layer.named_parameters():
+            param[1].requires_grad = False
+            param[1][:] = self.id_kernel
+
     def initialize_weight_layer(self):
         
         self.weights_layer = nn.Sequential(\
-- 
2.43.0


From 1f2f0019214b819b33ca9594739e7121677db24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:32 +0000
Subject: [PATCH 02/61] fix: get_dt after a step of CODE and RandomStepCA

Both classes store the step they took as a plain float, so reading the time
step back raised AttributeError.
---
 yuca/ca/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yuca/ca/common.py b/yuca/ca/common.py
index b9111ce..6215170 100644
--- a/yuca/ca/common.py
+++ b/yuca/ca/common.py
@@ -249,8 +249,8 @@ class CA(nn.Module):
 
     def get_dt(self):
 
-        # self.dt is a torch tensor
-        return self.dt.item()
+        # self.dt is a torch tensor, or a float for variable step CA
+        return float(self.dt)
 
     def get_dx(self):
 
-- 
2.43.0


From 9654853e42571dc03d703c839ba33026f4055a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:32 +0000
Subject: [PATCH 03/61] fix: get_frame skipped the alive mask that forward
 applies

For grids with an alpha channel a frame showed a different next state than
the step it stands for.
---
 yuca/ca/common.py     | 3 +++
 yuca/ca/continuous.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/yuca/ca/common.py b/yuca/ca/common.py
index 6215170..3184a35 100644
--- a/yuca/ca/common.py
+++ b/yuca/ca/common.py
@@ -337,6 +337,9 @@ class CA(nn.Module):
 
     def get_frame(self, universe, mode=0):
 
+        if universe.shape[1] >= 4:
+            universe = self.alive_mask(universe)
+
         identity = self.id_conv(universe)
         neighborhoods = self.neighborhood_conv(universe)
 
diff --git a/yuca/ca/continuous.py b/yuca/ca/continuous.py
index 9134d0a..351745b 100644
--- a/yuca/ca/continuous.py
+++ b/yuca/ca/continuous.py
@@ -565,6 +565,9 @@ class CCA(CA):
 
     def get_frame(self, universe, mode=0):
 
+        if universe.shape[1] >= 4:
+            universe = self.alive_mask(universe)
+
         identity = self.id_conv(universe)
         neighborhoods = self.neighborhood_conv(universe)
 
-- 
2.43.0


From d971af45f26ddccb16f3062067a6a5105640cf85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:32 +0000
Subject: [PATCH 04/61] fix: CODE falls back to min_dt when the first trial
 step is below it

step_mse was unbound when no trial step was evaluated.
---
 yuca/code.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yuca/code.py b/yuca/code.py
index 9cb4cf9..894f347 100644
--- a/yuca/code.py
+++ b/yuca/code.py
@@ -60,6 +60,7 @@ class CODE(CCA):
     def adaptive_euler(self, grid, total_step=0.0):
         
         keep = False
+        step_mse = None
         
         current_step = min([self.prev_dt * 2, self.max_dt])
         # Don't track gradients while estimating step size
-- 
2.43.0


From 53313b35e0ee1c67344e3806ca7e6381fdb89e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:39 +0000
Subject: [PATCH 05/61] fix: operator precedence in the signed mode of
 DoGaussian

Every other activation returns 2*f - 1 in mode 1, this one returned
g1 - 2*g2 - 1, which is negative everywhere.
---
 yuca/activations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yuca/activations.py b/yuca/activations.py
index e8332c7..8d9347d 100644
--- a/yuca/activations.py
+++ b/yuca/activations.py
@@ -369,7 +369,7 @@ class DoGaussian(nn.Module):
                 - (((x-self.dx) - self.mu) / (eps + self.sigma))**2 / 2 )
 
         if self.mode:
-            result = gaussian_1 - gaussian_2 * 2 -1
+            result = (gaussian_1 - gaussian_2) * 2 - 1
         else:
             result = gaussian_1 - gaussian_2
 
-- 
2.43.0


From 62fe0cf46e54a6069883f2e4be1f80c7603d592d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:39 +0000
Subject: [PATCH 06/61] fix: DoubleGaussian accepts scalar mu and sigma

Its own default values raised IndexError.
---
 yuca/activations.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yuca/activations.py b/yuca/activations.py
index 8d9347d..b0ba375 100644
--- a/yuca/activations.py
+++ b/yuca/activations.py
@@ -301,6 +301,8 @@ class DoubleGaussian(nn.Module):
         if type(sigma) is not torch.Tensor:
             sigma = torch.tensor(sigma)
 
+        mu, sigma = mu.reshape(-1), sigma.reshape(-1)
+
         if mu.shape[0] == 1:
             mu = torch.cat([mu, mu])
         if sigma.shape[0] == 1:
-- 
2.43.0


From bed3c50bc9d35ae72a32e325d338a05c7eb0eac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:35 +0000
Subject: [PATCH 07/61] fix: make_config lost or destroyed genesis and
 persistence parameters

The flat parameter vector was written to the key "parameters" whatever the
function: smooth intervals were replaced by an empty array, amplitudes of
Gaussian mixtures vanished, and changed parameters of Gaussian, DoGaussian,
DoubleGaussian and Polynomial functions were ignored when loading. It also
overwrote the configuration of the exporting CA.
---
 yuca/ca/continuous.py | 37 +++++++++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/yuca/ca/continuous.py b/yuca/ca/continuous.py
index 351745b..e72edfc 100644
--- a/yuca/ca/continuous.py
+++ b/yuca/ca/continuous.py
@@ -172,6 +172,35 @@ class CCA(CA):
             print(f"attempted to read {filepath}, not found")
             #assert False, f"{filepath} not found"
         
+    def current_fn_config(self, fn_config, fn):
+        """
+        copy of a genesis/persistence config with the current parameters 
+        in the places where add_genesis_fn/add_persistence_fn look for them
+        """
+
+        fn_config = copy.deepcopy(fn_config)
+        params = np.array([])
+        for param in fn.parameters():
+            params = np.append(params, param.detach().cpu().numpy().ravel())
+
+        if fn_config["name"] in ["Gaussian", "DoGaussian"]:
+            fn_config["mu"] = params[0]
+            fn_config["sigma"] = params[1]
+        elif fn_config["name"] == "DoubleGaussian":
+            fn_config["mu"] = params[:2]
+            fn_config["sigma"] = params[2:]
+        elif fn_config["name"] == "Polynomial":
+            fn_config["coefficients"] = params
+        elif fn_config["name"] == "GaussianMixture":
+            old_params = np.array(fn_config.get("parameters", [0.5, 0.15]))
+            if len(old_params) % 3 == 0:
+                # amplitudes are not trainable
+                params = np.concatenate([old_params.reshape(-1, 3)[:,:1], \
+                        params.reshape(-1, 2)], axis=1).ravel()
+            fn_config["parameters"] = params
+
+        return fn_config
+
     def make_config(self):
 
         config = {}
@@ -214,8 +243,8 @@ class CCA(CA):
                     "mode": 1}
             self.genesis_fn_config = genesis_config
         else:
-            genesis_config = self.genesis_fn_config
-            genesis_config["parameters"] = self.get_genesis_params()
+            genesis_config = self.current_fn_config(self.genesis_fn_config, \
+                    self.genesis_fns[0])
 
         #if "parameters" in genesis_config.keys():
 
@@ -230,8 +259,8 @@ class CCA(CA):
                     "mode": 1}
             self.persistence_fn_config = persistence_config
         else:
-            persistence_config = self.persistence_fn_config
-            persistence_config["parameters"] = self.get_persistence_params()
+            persistence_config = self.current_fn_config(\
+                    self.persistence_fn_config, self.persistence_fns[0])
 
         #if "parameters" in persistence_config.keys():
 
-- 
2.43.0


From c54a987f2c6bc1678d9a1b3b15deb88372da43b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:35 +0000
Subject: [PATCH 08/61] fix: exported configurations lost the identity kernel

load_config reads identity_kernel_config but make_config only wrote
id_kernel_config, and never knew the loaded one.
---
 yuca/ca/continuous.py         | 3 +++
 yuca/ca/neural.py             | 3 +++
 yuca/ca/reaction_diffusion.py | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/yuca/ca/continuous.py b/yuca/ca/continuous.py
index e72edfc..c7125ae 100644
--- a/yuca/ca/continuous.py
+++ b/yuca/ca/continuous.py
@@ -109,6 +109,8 @@ class CCA(CA):
 
         self.config = config
 
+        self.id_kernel_config = config.get("identity_kernel_config", None)
+
         if "identity_kernel_config" not in config.keys():
             self.add_identity_kernel()
         else: 
@@ -267,6 +269,7 @@ class CCA(CA):
         #    persistence_config["parameters"] = self.get_persistence_params()
             
         config["id_kernel_config"] = id_kernel_config
+        config["identity_kernel_config"] = id_kernel_config
         config["neighborhood_kernel_config"] = neighborhood_kernel_config
         config["genesis_config"] = genesis_config
         config["persistence_config"] = persistence_config
diff --git a/yuca/ca/neural.py b/yuca/ca/neural.py
index 58474af..db40a91 100644
--- a/yuca/ca/neural.py
+++ b/yuca/ca/neural.py
@@ -139,6 +139,8 @@ class NCA(CA):
 
         self.config = config
 
+        self.id_kernel_config = config.get("identity_kernel_config", None)
+
         if "identity_kernel_config" not in config.keys():
             self.add_identity_kernel()
         else: 
@@ -235,6 +237,7 @@ class NCA(CA):
         config["params"] = self.get_params()
             
         config["id_kernel_config"] = id_kernel_config
+        config["identity_kernel_config"] = id_kernel_config
         config["neighborhood_kernel_config"] = neighborhood_kernel_config
 
         if "dt" not in config.keys():
diff --git a/yuca/ca/reaction_diffusion.py b/yuca/ca/reaction_diffusion.py
index 3e9be21..92d7e43 100644
--- a/yuca/ca/reaction_diffusion.py
+++ b/yuca/ca/reaction_diffusion.py
@@ -77,6 +77,8 @@ class RxnDfn(CA):
 
         self.config = config
 
+        self.id_kernel_config = config.get("identity_kernel_config", None)
+
         if "identity_kernel_config" not in config.keys():
             self.add_identity_kernel()
         else: 
@@ -181,6 +183,7 @@ class RxnDfn(CA):
         config["params"] = self.get_params()
             
         config["id_kernel_config"] = id_kernel_config
+        config["identity_kernel_config"] = id_kernel_config
         config["neighborhood_kernel_config"] = neighborhood_kernel_config
 
         config["dt"] = self.dt.item() 
-- 
2.43.0


From 322f8648a55aa779403e8a9cf8d29819c28f164b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:48 +0000
Subject: [PATCH 09/61] fix: set_params overwrote non-Gaussian kernels and left
 a stale kernel config

---
 yuca/ca/common.py     | 45 ++++++++++++++++++++++++++++++++++++-------
 yuca/ca/continuous.py | 16 +++++++--------
 yuca/ca/neural.py     | 28 ++++++++-------------------
 3 files changed, 53 insertions(+), 36 deletions(-)

diff --git a/yuca/ca/common.py b/yuca/ca/common.py
index 3184a35..a84c8e2 100644
--- a/yuca/ca/common.py
+++ b/yuca/ca/common.py
@@ -272,21 +272,52 @@ class CA(nn.Module):
         self.to_device(self.my_device)
 
     def update_kernel_params(self, kernel_kwargs):
+        """
+        kernel parameters are the parameters of a (mixture of) Gaussian(s),
+        other kernels have none
+        """
 
-        self.kernel_params = None
+        self.kernel_params = np.array([])
 
-        for key in kernel_kwargs.keys():
-            if self.kernel_params is None:
-                self.kernel_params = np.array(kernel_kwargs[key])
-            else:
+        if self.neighborhood_kernel_config["name"] == "Gaussian":
+            keys = ["mu", "sigma"]
+        elif self.neighborhood_kernel_config["name"] == "GaussianMixture":
+            keys = ["parameters"]
+        else:
+            keys = []
+
+        for key in keys:
+            if key in kernel_kwargs.keys():
                 self.kernel_params = np.append(self.kernel_params, \
                         np.array(kernel_kwargs[key]))
 
+    def set_kernel_params(self, kernel_params):
+        """
+        change the parameters of a (mixture of) Gaussian(s) kernel, 
+        see update_kernel_params
+        """
+
+        self.kernel_params = np.array(kernel_params)
+
+        if self.kernel_params.shape[0] == 0:
+            return
+
+        kernel_kwargs = self.neighborhood_kernel_config["kernel_kwargs"]
+
+        if self.neighborhood_kernel_config["name"] == "Gaussian":
+            keys = [key for key in ["mu", "sigma"] if key in kernel_kwargs.keys()]
+            for key, param in zip(keys, self.kernel_params):
+                kernel_kwargs[key] = param
+        else:
+            kernel_kwargs["parameters"] = self.kernel_params.copy()
+
+        self.set_kernel_radius(self.kernel_radius)
+
     def set_kernel_config(self, kernel_config):
 
         self.neighborhood_kernel_config = kernel_config
-        if "kernel_kwargs" in self.neighborhood_kernel_config.keys():
-            self.update_kernel_params(self.neighborhood_kernel_config["kernel_kwargs"])
+        self.update_kernel_params(\
+                self.neighborhood_kernel_config.get("kernel_kwargs", {}))
 
         self.set_kernel_radius(self.neighborhood_kernel_config["radius"])
 
diff --git a/yuca/ca/continuous.py b/yuca/ca/continuous.py
index c7125ae..cdbc559 100644
--- a/yuca/ca/continuous.py
+++ b/yuca/ca/continuous.py
@@ -121,8 +121,8 @@ class CCA(CA):
 
         self.neighborhood_kernel_config = config["neighborhood_kernel_config"]
         nbhd_kernel = get_kernel(self.neighborhood_kernel_config)
-        if "kernel_kwargs" in self.neighborhood_kernel_config.keys():
-            self.update_kernel_params(self.neighborhood_kernel_config["kernel_kwargs"])
+        self.update_kernel_params(\
+                self.neighborhood_kernel_config.get("kernel_kwargs", {}))
 
         # update self.kernel_radius
         self.set_kernel_radius(self.neighborhood_kernel_config["radius"])
@@ -318,6 +318,10 @@ class CCA(CA):
             else:
                 nbhd_kernels = torch.cat([nbhd_kernels, nbhd_kernel], dim=0)
 
+        self.neighborhood_kernel_config = {"name": "GaussianMixture", \
+                "kernel_kwargs": {"parameters": self.kernel_params}, \
+                "radius": self.kernel_radius}
+
         self.add_neighborhood_kernel(nbhd_kernels)
         self.initialize_neighborhood_layer()
 
@@ -711,13 +715,7 @@ class CCA(CA):
                 param_start = param_stop
 
         param_stop = param_start + self.kernel_params.shape[0]
-        self.kernel_params = params[param_start:param_stop]
-
-        nbhd_kernel = get_gaussian_mixture_kernel(radius=self.kernel_radius, \
-                parameters=self.kernel_params)
-
-        self.add_neighborhood_kernel(nbhd_kernel)
-        self.initialize_neighborhood_layer()
+        self.set_kernel_params(params[param_start:param_stop])
         self.to_device(self.my_device)
 
     def no_grad(self):
diff --git a/yuca/ca/neural.py b/yuca/ca/neural.py
index db40a91..fbc9264 100644
--- a/yuca/ca/neural.py
+++ b/yuca/ca/neural.py
@@ -81,17 +81,6 @@ class NCA(CA):
 
         self.reset()
 
-    def update_kernel_params(self, kernel_kwargs):
-
-        self.kernel_params = None
-
-        for key in kernel_kwargs.keys():
-            if self.kernel_params is None:
-                self.kernel_params = np.array(kernel_kwargs[key])
-            else:
-                self.kernel_params = np.append(self.kernel_params, \
-                        np.array(kernel_kwargs[key]))
-
     def default_init(self):
 
         self.add_identity_kernel()
@@ -113,6 +102,10 @@ class NCA(CA):
             else:
                 nbhd_kernels = torch.cat([nbhd_kernels, nbhd_kernel], dim=0)
 
+        self.neighborhood_kernel_config = {"name": "GaussianMixture", \
+                "kernel_kwargs": {"parameters": self.kernel_params}, \
+                "radius": self.kernel_radius}
+
         self.add_neighborhood_kernel(nbhd_kernels)
         self.initialize_neighborhood_layer()
 
@@ -126,10 +119,11 @@ class NCA(CA):
         self.neighborhood_kernel_config = kernel_config
         self.kernel_radius = self.neighborhood_kernel_config["radius"]
         nbhd_kernel = get_kernel(self.neighborhood_kernel_config)
-        if "kernel_kwargs" in self.neighborhood_kernel_config.keys():
-            self.update_kernel_params(self.neighborhood_kernel_config["kernel_kwargs"])
+        self.update_kernel_params(\
+                self.neighborhood_kernel_config.get("kernel_kwargs", {}))
 
         self.add_neighborhood_kernel(nbhd_kernel)
+        self.initialize_neighborhood_layer()
 
     def load_config(self, config):
 
@@ -375,13 +369,7 @@ class NCA(CA):
 
         if self.kernel_params is not None:
             param_stop = param_start + self.kernel_params.shape[0]
-            self.kernel_params = params[param_start:param_stop]
-
-            nbhd_kernel = get_gaussian_mixture_kernel(radius=self.kernel_radius, \
-                    parameters=self.kernel_params)
-
-            self.add_neighborhood_kernel(nbhd_kernel)
-            self.initialize_neighborhood_layer()
+            self.set_kernel_params(params[param_start:param_stop])
             self.to_device(self.my_device)
 
     def no_grad(self):
-- 
2.43.0


From 7062717e0e43461d6875b6905f95d2102c7362a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:48 +0000
Subject: [PATCH 10/61] fix: reaction-diffusion load_config left the old kernel
 radius

---
 yuca/ca/reaction_diffusion.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yuca/ca/reaction_diffusion.py b/yuca/ca/reaction_diffusion.py
index 92d7e43..22d50ed 100644
--- a/yuca/ca/reaction_diffusion.py
+++ b/yuca/ca/reaction_diffusion.py
@@ -89,6 +89,7 @@ class RxnDfn(CA):
 
         nbhd_kernel = get_kernel(config["neighborhood_kernel_config"])
         self.neighborhood_kernel_config = config["neighborhood_kernel_config"]
+        self.kernel_radius = self.neighborhood_kernel_config["radius"]
 
         self.add_neighborhood_kernel(nbhd_kernel)
         self.initialize_neighborhood_layer()
-- 
2.43.0


From 2d2a2cab59ac474a8640f450e07ff3ba8da1b069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:48 +0000
Subject: [PATCH 11/61] fix: configurations of never configured CCA invented
 growth functions

---
 yuca/ca/continuous.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/yuca/ca/continuous.py b/yuca/ca/continuous.py
index cdbc559..c8fa2d1 100644
--- a/yuca/ca/continuous.py
+++ b/yuca/ca/continuous.py
@@ -384,6 +384,10 @@ class CCA(CA):
                 self.add_genesis_fn(genesis_config)
                 self.add_persistence_fn(persistence_config)
 
+                if pp == 0:
+                    self.genesis_fn_config = genesis_config
+                    self.persistence_fn_config = persistence_config
+
 
         self.set_dt(0.1)
 
-- 
2.43.0


From 1da7384ca30d800d4f36d881438fd23f49d27781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:34 +0000
Subject: [PATCH 12/61] fix: automata aliased the configuration and time step
 objects of their caller

---
 yuca/ca/common.py             | 4 ++--
 yuca/ca/continuous.py         | 2 ++
 yuca/ca/neural.py             | 4 +++-
 yuca/ca/reaction_diffusion.py | 8 +++++---
 4 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/yuca/ca/common.py b/yuca/ca/common.py
index a84c8e2..45e1947 100644
--- a/yuca/ca/common.py
+++ b/yuca/ca/common.py
@@ -315,7 +315,7 @@ class CA(nn.Module):
 
     def set_kernel_config(self, kernel_config):
 
-        self.neighborhood_kernel_config = kernel_config
+        self.neighborhood_kernel_config = copy.deepcopy(kernel_config)
         self.update_kernel_params(\
                 self.neighborhood_kernel_config.get("kernel_kwargs", {}))
 
@@ -324,7 +324,7 @@ class CA(nn.Module):
     def set_dt(self, new_dt):
         
         if type(new_dt) is torch.Tensor:
-            self.dt = new_dt.to(self.my_device)
+            self.dt = new_dt.clone().detach().to(self.my_device)
         else:
             self.dt = torch.tensor(new_dt).to(self.my_device)
 
diff --git a/yuca/ca/continuous.py b/yuca/ca/continuous.py
index c8fa2d1..f8d4ae6 100644
--- a/yuca/ca/continuous.py
+++ b/yuca/ca/continuous.py
@@ -107,6 +107,8 @@ class CCA(CA):
         self.genesis_fns = []
         self.persistence_fns = []
 
+        # settings may change later, but not in the caller's config
+        config = copy.deepcopy(config)
         self.config = config
 
         self.id_kernel_config = config.get("identity_kernel_config", None)
diff --git a/yuca/ca/neural.py b/yuca/ca/neural.py
index fbc9264..c4de94e 100644
--- a/yuca/ca/neural.py
+++ b/yuca/ca/neural.py
@@ -116,7 +116,7 @@ class NCA(CA):
 
     def set_kernel_config(self, kernel_config):
 
-        self.neighborhood_kernel_config = kernel_config
+        self.neighborhood_kernel_config = copy.deepcopy(kernel_config)
         self.kernel_radius = self.neighborhood_kernel_config["radius"]
         nbhd_kernel = get_kernel(self.neighborhood_kernel_config)
         self.update_kernel_params(\
@@ -131,6 +131,8 @@ class NCA(CA):
             self.__init__(**config["instant_kwargs"])
 
 
+        # settings may change later, but not in the caller's config
+        config = copy.deepcopy(config)
         self.config = config
 
         self.id_kernel_config = config.get("identity_kernel_config", None)
diff --git a/yuca/ca/reaction_diffusion.py b/yuca/ca/reaction_diffusion.py
index 22d50ed..bf7e00f 100644
--- a/yuca/ca/reaction_diffusion.py
+++ b/yuca/ca/reaction_diffusion.py
@@ -55,26 +55,28 @@ class RxnDfn(CA):
     def set_dx(self, new_dx):
 
         if type(new_dx) is torch.Tensor:
-            self.dx = new_dx.to(self.my_device)
+            self.dx = new_dx.clone().detach().to(self.my_device)
         else:
             self.dx = torch.tensor(new_dx).to(self.my_device)
 
     def set_diffusion_u(self, new_diffusion_u):
 
         if type(new_diffusion_u) is torch.Tensor:
-            self.diffusion_u = new_diffusion_u.to(self.my_device)
+            self.diffusion_u = new_diffusion_u.clone().detach().to(self.my_device)
         else:
             self.diffusion_u = torch.tensor(new_diffusion_u).to(self.my_device)
 
     def set_diffusion_v(self, new_diffusion_v):
 
         if type(new_diffusion_v) is torch.Tensor:
-            self.diffusion_v = new_diffusion_v.to(self.my_device)
+            self.diffusion_v = new_diffusion_v.clone().detach().to(self.my_device)
         else:
             self.diffusion_v = torch.tensor(new_diffusion_v).to(self.my_device)
 
     def load_config(self, config, verbose=False):
 
+        # settings may change later, but not in the caller's config
+        config = copy.deepcopy(config)
         self.config = config
 
         self.id_kernel_config = config.get("identity_kernel_config", None)
-- 
2.43.0


From 0c28ef55dea91700e1cc18a308f4162af03c3ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:00 +0000
Subject: [PATCH 13/61] fix: elapsed time crashed when dt changed between
 scalar and one-element tensor

---
 yuca/ca/common.py             | 2 +-
 yuca/ca/continuous.py         | 2 +-
 yuca/ca/reaction_diffusion.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/yuca/ca/common.py b/yuca/ca/common.py
index 45e1947..305085e 100644
--- a/yuca/ca/common.py
+++ b/yuca/ca/common.py
@@ -362,7 +362,7 @@ class CA(nn.Module):
             
             new_universe = torch.clamp(universe + self.dt * update, 0, 1.0)
 
-        self.t_count += self.dt.detach().cpu()
+        self.t_count = self.t_count + self.dt.detach().cpu()
 
         return new_universe
 
diff --git a/yuca/ca/continuous.py b/yuca/ca/continuous.py
index f8d4ae6..8dc8ac8 100644
--- a/yuca/ca/continuous.py
+++ b/yuca/ca/continuous.py
@@ -601,7 +601,7 @@ class CCA(CA):
             
             new_universe = torch.clamp(universe + self.dt * update, 0, 1.0)
         #new_universe = self.weights_layer(new_universe)
-        self.t_count += self.dt.detach().cpu()
+        self.t_count = self.t_count + self.dt.detach().cpu()
 
         return new_universe
 
diff --git a/yuca/ca/reaction_diffusion.py b/yuca/ca/reaction_diffusion.py
index bf7e00f..4ef7ffb 100644
--- a/yuca/ca/reaction_diffusion.py
+++ b/yuca/ca/reaction_diffusion.py
@@ -376,7 +376,7 @@ class RxnDfn(CA):
         new_universe = universe + self.dt * update 
         new_universe = torch.clamp(new_universe,0,1.)
 
-        self.t_count += self.dt.detach().cpu()
+        self.t_count = self.t_count + self.dt.detach().cpu()
 
         return new_universe
 
-- 
2.43.0


From 282f766b57e8384c2c616788293560f082293cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:07 +0000
Subject: [PATCH 14/61] fix: carried over elites were overwritten by other
 elites

---
 yuca/cmaes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yuca/cmaes.py b/yuca/cmaes.py
index 9e1fdcd..3dd8994 100644
--- a/yuca/cmaes.py
+++ b/yuca/cmaes.py
@@ -313,7 +313,7 @@ class CMAES():
 
         
         for kk in range(self.elite_keep * self.elitism // 2):
-            self.population[kk].set_params(elite_pop[kk].get_params())
+            self.population[kk].set_params(1.0 * self.elite_params[kk])
 
         for ll in range(self.elite_keep * self.elitism // 2, self.population_size):
             self.population[ll].set_params(self.sample_distribution())    
-- 
2.43.0


From 4b9cb0c462ff5b28d058595b00f3f8c5375c0ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:07 +0000
Subject: [PATCH 15/61] fix: search with one worker divided by zero

---
 yuca/cmaes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yuca/cmaes.py b/yuca/cmaes.py
index 3dd8994..f9bafd2 100644
--- a/yuca/cmaes.py
+++ b/yuca/cmaes.py
@@ -468,7 +468,7 @@ class CMAES():
                 
                 t1 = time.time()
 
-                if self.workers == 0:
+                if self.workers <= 1:
                     for jj in range(self.population_size):
                         result = self.get_fitness(jj, steps = 1, \
                                 replicates = self.replicates, \
-- 
2.43.0


From 14ecbc6ce802bf01e555b0070bf5c9d6e4075746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:07 +0000
Subject: [PATCH 16/61] fix: search initialized its population twice

---
 yuca/cmaes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yuca/cmaes.py b/yuca/cmaes.py
index f9bafd2..e5deb85 100644
--- a/yuca/cmaes.py
+++ b/yuca/cmaes.py
@@ -440,8 +440,8 @@ class CMAES():
             print(f"random seed {my_seed}")
 
             seed_all(my_seed)
+            # includes initialize_population
             self.reset()
-            self.initialize_population()
             
             self.generation = 0
 
-- 
2.43.0


From e629aebde8c7f274e294d774caa47cbfa2cff2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:07 +0000
Subject: [PATCH 17/61] fix: early stopping ranked an unevaluated population by
 the old fitness

---
 yuca/cmaes.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/yuca/cmaes.py b/yuca/cmaes.py
index e5deb85..79becda 100644
--- a/yuca/cmaes.py
+++ b/yuca/cmaes.py
@@ -517,15 +517,19 @@ class CMAES():
 
 
                 
-                if generation == self.generations - 1:
-                    self.rank_population(fitness, seed=my_seed)
-                else:
-                    self.update_population(fitness)
-
                 fit_mean = np.mean(fitness) 
                 fit_max = np.max(fitness) 
                 fit_min = np.min(fitness) 
                 fit_std_dev = np.std(fitness) 
+
+                early_stop = fit_std_dev < 0.02 and generation > 6
+
+                # the last generation is ranked (and not replaced)
+                if generation == self.generations - 1 or early_stop:
+                    self.rank_population(fitness, seed=my_seed)
+                else:
+                    self.update_population(fitness)
+
                 avg_alive = np.mean(proportion_alive)
 
                 elite_configs = self.get_elite_configs()
@@ -561,8 +565,7 @@ class CMAES():
                 print(proportion_msg)
 
 
-                if fit_std_dev < 0.02 and generation > 6:
-                    self.rank_population(fitness, seed = my_seed)
+                if early_stop:
                     early_msg = f"fitness std. dev. fallen to {fit_std_dev} "\
                             f"ending evolution early."
                     print(early_msg)
-- 
2.43.0


From 51ff029361300ec26d971c24bc428db0ac43f6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:07 +0000
Subject: [PATCH 18/61] fix: coevolution saved pattern parameters as the best
 rule

---
 yuca/cmaes.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/yuca/cmaes.py b/yuca/cmaes.py
index 79becda..ec76504 100644
--- a/yuca/cmaes.py
+++ b/yuca/cmaes.py
@@ -226,11 +226,13 @@ class CMAES():
         temp = os.path.split(os.path.split(this_filepath)[0])[0]
         ca_config_filepath = os.path.join(temp, f"ca_configs/{self.exp_id}_seed{seed}.npy")
         
-        if "pattern" not in self.tag:
-            self.env.ca.set_params(self.elite_params[0])
-
+        self.set_best_rule()
         self.env.ca.save_config(ca_config_filepath)
 
+    def set_best_rule(self):
+
+        if "pattern" not in self.tag:
+            self.env.ca.set_params(self.elite_params[0])
 
     def update_population(self, fitness):
 
@@ -659,6 +661,16 @@ class CMACES(CMAES):
         # reduce the impact of lucky/unlucky predictor initializations
         return np.mean(fitness_replicates), proportion_alive
 
+    def set_best_rule(self):
+        # elite params are pattern params followed by rule params
+
+        temp_agent = self.agent_fn(\
+                params = self.elite_params[0].squeeze(),\
+                external_channels = self.external_channels,\
+                dim = self.dim)
+
+        self.env.ca.set_params(temp_agent.get_rule_action())
+
     def get_elite_configs(self):
 
         elite_configs = []
-- 
2.43.0


From ae02ee92def140a9959cde36336e15af0ca52d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:07 +0000
Subject: [PATCH 19/61] fix: CPPN ignored the parameters it was constructed
 with

---
 yuca/cppn.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/yuca/cppn.py b/yuca/cppn.py
index bb6dc81..a29ece3 100644
--- a/yuca/cppn.py
+++ b/yuca/cppn.py
@@ -37,6 +37,10 @@ class CPPN(nn.Module):
 
         self.no_grad()
 
+        if "params" in kwargs.keys():
+            # rule parameters may follow, see CPPNPlus
+            CPPN.set_params(self, kwargs["params"])
+
     def init_model(self):
 
         input_dim = self.external_channels * 16
-- 
2.43.0


From cab547fb0cb09a590b794270876cb39183d1c446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:07 +0000
Subject: [PATCH 20/61] fix: CPPN input for three or more channels

---
 yuca/cppn.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/yuca/cppn.py b/yuca/cppn.py
index a29ece3..5ed0b88 100644
--- a/yuca/cppn.py
+++ b/yuca/cppn.py
@@ -139,9 +139,8 @@ class CPPN(nn.Module):
 
 
 
-        for ii in range(self.external_channels-1):
-            grid = torch.cat([grid,  grid], dim=1)
-            rr = torch.cat([rr, rr], dim=1)
+        grid = torch.cat([grid] * self.external_channels, dim=1)
+        rr = torch.cat([rr] * self.external_channels, dim=1)
 
         self.rr = rr
         self.grid = grid.to(torch.get_default_dtype())
-- 
2.43.0


From 93a29796204500a1608ee1df57f6f503bd45c66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:03 +0000
Subject: [PATCH 21/61] fix: simple halting episodes started from the previous
 episode's automaton state

---
 yuca/wrappers/halting_wrapper.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/yuca/wrappers/halting_wrapper.py b/yuca/wrappers/halting_wrapper.py
index 32cd337..ef597cc 100644
--- a/yuca/wrappers/halting_wrapper.py
+++ b/yuca/wrappers/halting_wrapper.py
@@ -44,10 +44,8 @@ class SimpleHaltingWrapper(nn.Module):
             return np.random.rand(*self.shape) 
 
     def reset(self):
-        pass 
-
-    def eval(self):
-        pass
+        # don't carry over state (e.g. velocity) from previous episodes
+        self.ca.reset()
 
 
     def train(self):
-- 
2.43.0


From dc7dc00babe6c97835ef624308eb51dccaf740a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:03 +0000
Subject: [PATCH 22/61] fix: glider reward lost the displacement from the top
 row

---
 yuca/wrappers/glider_wrapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yuca/wrappers/glider_wrapper.py b/yuca/wrappers/glider_wrapper.py
index 44c1d3e..072aaba 100644
--- a/yuca/wrappers/glider_wrapper.py
+++ b/yuca/wrappers/glider_wrapper.py
@@ -81,7 +81,7 @@ class GliderWrapper():
         max_grid = 0.31 #action.max()
 
         # avoid the "tree falling over" hack 
-        y_displacement_0 = torch.tensor(0.0) #None 
+        y_displacement_0 = None
 
         old_grid = 1.0  * action
         score_every = 1 #max([self.ca_steps // 8 , 1])
@@ -105,7 +105,7 @@ class GliderWrapper():
                 growth =  torch.abs(1.0 - (mean_grid / (mean_grid_0 + eps)))
                 mean_grid_0 = 1.0 * mean_grid
 
-                if y_displacement_0 != 0.0: #None:
+                if y_displacement_0 is not None:
 
                     y_displacement = y_displacement_1 - y_displacement_0
 
-- 
2.43.0


From 21d20733b18bef978f0318cc87701b2c53ca0166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:03 +0000
Subject: [PATCH 23/61] fix: glider reward wraparound correction for small
 grids and upward motion

---
 yuca/wrappers/glider_wrapper.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/yuca/wrappers/glider_wrapper.py b/yuca/wrappers/glider_wrapper.py
index 072aaba..ba9df77 100644
--- a/yuca/wrappers/glider_wrapper.py
+++ b/yuca/wrappers/glider_wrapper.py
@@ -86,7 +86,8 @@ class GliderWrapper():
         old_grid = 1.0  * action
         score_every = 1 #max([self.ca_steps // 8 , 1])
         self.ca.reset()
-        kernel_span = self.y_grid.max()
+        # grid size in kernel radii
+        kernel_span = self.dim / self.ca.kernel_radius
         
         for step in range(self.ca_steps):
        
@@ -109,9 +110,11 @@ class GliderWrapper():
 
                     y_displacement = y_displacement_1 - y_displacement_0
 
-                    if y_displacement_0 > (kernel_span - 2) and y_displacement_1 < 2:
-                        # account for wraparound errors
+                    # account for wraparound errors
+                    if y_displacement < -kernel_span / 2:
                         y_displacement += kernel_span
+                    elif y_displacement > kernel_span / 2:
+                        y_displacement -= kernel_span
 
                     reward += y_displacement.cpu() - growth.cpu() #* 150
                 else: 
-- 
2.43.0


From e55dd553434a267f719ba74bd90970d2741e681c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:03 +0000
Subject: [PATCH 24/61] fix: glider reward stopped early for patterns that only
 decay

---
 yuca/wrappers/glider_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yuca/wrappers/glider_wrapper.py b/yuca/wrappers/glider_wrapper.py
index ba9df77..ccf4fcc 100644
--- a/yuca/wrappers/glider_wrapper.py
+++ b/yuca/wrappers/glider_wrapper.py
@@ -127,7 +127,7 @@ class GliderWrapper():
             dgrid = action - old_grid
             old_grid = 1.0  * action
 
-            if mean_grid == 0.0 or dgrid.max() <= 0.00001:
+            if mean_grid == 0.0 or dgrid.abs().max() <= 0.00001:
                 break
 
         # take stepwise average 
-- 
2.43.0


From 7a4558abb5ee403a24ae4f81eb51467564750b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:03 +0000
Subject: [PATCH 25/61] fix: glider displacement divided one grid by the mass
 of the batch

---
 yuca/wrappers/glider_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yuca/wrappers/glider_wrapper.py b/yuca/wrappers/glider_wrapper.py
index ccf4fcc..596f12f 100644
--- a/yuca/wrappers/glider_wrapper.py
+++ b/yuca/wrappers/glider_wrapper.py
@@ -99,7 +99,7 @@ class GliderWrapper():
             if step % (score_every) == 0:# or step == (self.ca_steps - 1):
                 
 
-                y_displacement_1 = (self.y_grid * action[0:1]).sum() / (eps + action.sum())
+                y_displacement_1 = (self.y_grid * action[0:1]).sum() / (eps + action[0:1].sum())
 
 
                 # penalize growth/decay, i.e. incentivize morphological homeostasis
-- 
2.43.0


From 1c24321a3d2ed3c9d15a079e57722d271eacf3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:11 +0000
Subject: [PATCH 26/61] fix: searches with the same seed started from different
 distributions

---
 yuca/cmaes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/yuca/cmaes.py b/yuca/cmaes.py
index ec76504..15bdc37 100644
--- a/yuca/cmaes.py
+++ b/yuca/cmaes.py
@@ -48,6 +48,9 @@ class CMAES():
 
         env_fn = query_kwargs("env_fn", HaltingWrapper, **kwargs)
         
+        # the starting distribution comes from randomly initialized parameters
+        seed_all(self.my_seed[0])
+
         self.env = env_fn(lr = 1e-2, dropout = 0.125, **kwargs) 
 
         self.workers = query_kwargs("workers", 0, **kwargs)
-- 
2.43.0


From 6a6e5addc11c6bd57edddb4a9c3227ca25fb636a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:44 +0000
Subject: [PATCH 27/61] fix: halting evaluation started from the last training
 episode's automaton state

---
 yuca/wrappers/halting_wrapper.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yuca/wrappers/halting_wrapper.py b/yuca/wrappers/halting_wrapper.py
index ef597cc..9c1d159 100644
--- a/yuca/wrappers/halting_wrapper.py
+++ b/yuca/wrappers/halting_wrapper.py
@@ -276,6 +276,7 @@ class HaltingWrapper(nn.Module):
             self.optimizer.step()
 
         self.eval()
+        self.ca.reset()
 
         grid = torch.rand(self.batch_size, self.ca.external_channels, \
                 self.dim, self.dim, device=self.my_device)
-- 
2.43.0


From 2005051efeb1eeca8252a03874d3e5969f3fe481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:34 +0000
Subject: [PATCH 28/61] fix: store ignored ca_config when not verbose

---
 yuca/zoo/librarian.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/yuca/zoo/librarian.py b/yuca/zoo/librarian.py
index 6c35eb3..1c147a8 100644
--- a/yuca/zoo/librarian.py
+++ b/yuca/zoo/librarian.py
@@ -65,11 +65,11 @@ class Librarian():
         meta_path = os.path.join(self.directory, 
                 f"{pattern_name}{counter:03}.csv")
 
-        if config_name == "unspecified" and self.verbose:
-            if ca_config == "unspecified" and self.verbose:
-                print(f"warning, no config supplied for {pattern_name}")
-            else:
+        if config_name == "unspecified":
+            if ca_config != "unspecified":
                 config_name = ca_config
+            elif self.verbose:
+                print(f"warning, no config supplied for {pattern_name}")
 
         with open(meta_path, "w") as f:
             f.write(f"ca_config,{config_name}")
-- 
2.43.0


From 193d0432d08406aa68010bdce68526b753d2e871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:34 +0000
Subject: [PATCH 29/61] fix: library index left out patterns by parts of their
 name

---
 yuca/zoo/librarian.py | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/yuca/zoo/librarian.py b/yuca/zoo/librarian.py
index 1c147a8..af2b442 100644
--- a/yuca/zoo/librarian.py
+++ b/yuca/zoo/librarian.py
@@ -28,18 +28,9 @@ class Librarian():
 
         pattern_names = os.listdir(self.directory)
 
-        remove_list = []
-        for elem in pattern_names:
-            if ".py" in elem \
-                    or ".ipynb" in elem \
-                    or "csv" in elem \
-                    or "__pycache__" in elem:
-                remove_list.append(elem)
-                
-        for elem in remove_list:
-            pattern_names.remove(elem)
-
-        pattern_names = [os.path.splitext(elem)[0] for elem in pattern_names]
+        # patterns are stored as .npy files
+        pattern_names = [os.path.splitext(elem)[0] for elem in pattern_names \
+                if elem.endswith(".npy")]
 
         pattern_names.sort()
 
-- 
2.43.0


From 87e0d0c145b892e6e72a7625cf0813bd009b00b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:34 +0000
Subject: [PATCH 30/61] fix: library metadata was cut at commas and kept line
 ends

---
 yuca/zoo/librarian.py | 39 ++++++++++++++++-----------------------
 1 file changed, 16 insertions(+), 23 deletions(-)

diff --git a/yuca/zoo/librarian.py b/yuca/zoo/librarian.py
index af2b442..c7144e2 100644
--- a/yuca/zoo/librarian.py
+++ b/yuca/zoo/librarian.py
@@ -1,4 +1,5 @@
 import os
+import csv
 
 import numpy as np
 
@@ -62,11 +63,13 @@ class Librarian():
             elif self.verbose:
                 print(f"warning, no config supplied for {pattern_name}")
 
-        with open(meta_path, "w") as f:
-            f.write(f"ca_config,{config_name}")
-            f.write(f"\ncommit_hash,{commit_hash}")
-            f.write(f"\nnotes, {notes}")
-            f.write(f"\nentry_point,{entry_point}")
+        with open(meta_path, "w", newline="") as f:
+            # values may contain commas or line breaks
+            writer = csv.writer(f, lineterminator="\n")
+            writer.writerow(["ca_config", config_name])
+            writer.writerow(["commit_hash", commit_hash])
+            writer.writerow(["notes", str(notes)])
+            writer.writerow(["entry_point", entry_point])
 
         np.save(file_path, pattern) 
 
@@ -86,25 +89,15 @@ class Librarian():
 
         pattern = np.load(file_path)
 
-        with open(meta_path) as f:
-            metadata = f.readlines()
+        with open(meta_path, newline="") as f:
+            # older files have unquoted commas in the notes, and fewer lines
+            metadata = {row[0]: ",".join(row[1:]).strip() \
+                    for row in csv.reader(f) if row}
 
-            ca_config = metadata[0].split(",")[1]
-
-            try:
-                entry_point = metadata[3].split(",")[1]
-            except:
-                entry_point = "none"
-
-            try:
-                notes = metadata[2].split(",")[1]
-            except:
-                notes = ""
-
-            try:
-                commit_hash = metadata[1].split(",")[1]
-            except:
-                commit_hash = "none"
+            ca_config = metadata["ca_config"]
+            entry_point = metadata.get("entry_point", "none")
+            notes = metadata.get("notes", "")
+            commit_hash = metadata.get("commit_hash", "none")
 
         if self.verbose:
             print(f"pattern {pattern_name} loaded from {file_path}")
-- 
2.43.0


From b78297216f83faaf6012ceb169e8d8ef2ef21f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:17 +0000
Subject: [PATCH 31/61] fix: animations showed the first frame twice

---
 yuca/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yuca/utils.py b/yuca/utils.py
index a59c50e..9db5f00 100644
--- a/yuca/utils.py
+++ b/yuca/utils.py
@@ -174,7 +174,7 @@ def make_gif(frames_path="./assets/gif_frames/", gif_path="./assets", \
 
     gif_path = os.path.join(gif_path, f"gif_{tag}_{gif_id:04d}.gif") 
 
-    first_frame.save(gif_path, format="GIF", append_images=frames, \
+    first_frame.save(gif_path, format="GIF", append_images=frames[1:], \
             save_all=True, duration=42, loop=0)
 
     rm_path = os.path.join(frames_path, "*png")
-- 
2.43.0


From b15a64a6a3bccaf3d153c4dcea58b362b9b5a3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:17 +0000
Subject: [PATCH 32/61] fix: animations picked up and removed foreign files in
 the frames directory

---
 yuca/utils.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/yuca/utils.py b/yuca/utils.py
index 9db5f00..be44c92 100644
--- a/yuca/utils.py
+++ b/yuca/utils.py
@@ -1,4 +1,6 @@
 import os
+import shutil
+import tempfile
 
 import time
 import numpy as np
@@ -152,10 +154,12 @@ def make_gif(frames_path="./assets/gif_frames/", gif_path="./assets", \
     frames = []
 
     dir_list.sort()
+    image_paths = []
     for filename in dir_list:
         if "png" in filename:
 
             image_path = os.path.join(frames_path, filename)
+            image_paths.append(image_path)
             frames.append(Image.open(image_path))
 
     try: 
@@ -177,9 +181,8 @@ def make_gif(frames_path="./assets/gif_frames/", gif_path="./assets", \
     first_frame.save(gif_path, format="GIF", append_images=frames[1:], \
             save_all=True, duration=42, loop=0)
 
-    rm_path = os.path.join(frames_path, "*png")
-
-    os.system(f"rm {rm_path}")
+    for image_path in image_paths:
+        os.remove(image_path)
 
 def save_fig_sequence(grid, ca, num_steps=10, \
         frames_path="./assets/gif_frames", \
@@ -204,9 +207,10 @@ def save_fig_sequence(grid, ca, num_steps=10, \
     # number of leading zeros
     leading = num_steps // 10 + 1
 
-    if not os.path.exists(frames_path):
-        my_cmd = f"mkdir -p {frames_path}"
-        os.system(my_cmd)
+    # a directory of its own keeps the frames apart from other files
+    frames_root = frames_path
+    os.makedirs(frames_root, exist_ok=True)
+    frames_path = tempfile.mkdtemp(prefix="frames_", dir=frames_root)
 
     if type(tag) is str:
         gif_path = os.path.join(gif_path, tag)
@@ -255,5 +259,7 @@ def save_fig_sequence(grid, ca, num_steps=10, \
     else: 
         print("vanishing grid, no gif made")
 
-    os.system(f"rm -r {frames_path}")
+    shutil.rmtree(frames_path)
+    if not os.listdir(frames_root):
+        os.rmdir(frames_root)
     #ca.to_device(old_device)
-- 
2.43.0


From 8e623d7fd2b86f90785c0ee9fa5b56240dc1483f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:17 +0000
Subject: [PATCH 33/61] fix: no animation was made of a single frame

---
 yuca/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yuca/utils.py b/yuca/utils.py
index be44c92..b6c29b8 100644
--- a/yuca/utils.py
+++ b/yuca/utils.py
@@ -254,7 +254,7 @@ def save_fig_sequence(grid, ca, num_steps=10, \
             grid = ca.get_frame(grid, mode = mode)
 
 
-    if step > 0:
+    if os.listdir(frames_path):
         make_gif(frames_path=frames_path, gif_path=gif_path, tag=tag) 
     else: 
         print("vanishing grid, no gif made")
-- 
2.43.0


From 5f5919f5c323de944a727272d13aec8e6da999b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:17 +0000
Subject: [PATCH 34/61] fix: an animation could overwrite an earlier one of the
 same tag

---
 yuca/utils.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/yuca/utils.py b/yuca/utils.py
index b6c29b8..3e7ad61 100644
--- a/yuca/utils.py
+++ b/yuca/utils.py
@@ -171,12 +171,15 @@ def make_gif(frames_path="./assets/gif_frames/", gif_path="./assets", \
     
     gif_id = int((time.time() % 1)*1000)
 
-    if os.path.exists(gif_path):
-        pass
-    else:
-        os.mkdir(gif_path)
+    os.makedirs(gif_path, exist_ok=True)
+
+    gif_directory = gif_path
+    gif_path = os.path.join(gif_directory, f"gif_{tag}_{gif_id:04d}.gif") 
 
-    gif_path = os.path.join(gif_path, f"gif_{tag}_{gif_id:04d}.gif") 
+    # the id is only the fraction of a second, keep earlier animations
+    while os.path.exists(gif_path):
+        gif_id += 1
+        gif_path = os.path.join(gif_directory, f"gif_{tag}_{gif_id:04d}.gif") 
 
     first_frame.save(gif_path, format="GIF", append_images=frames[1:], \
             save_all=True, duration=42, loop=0)
-- 
2.43.0


From ee7c677acf02ad1da5c3cf2aea6d8b2e96c82405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:09 +0000
Subject: [PATCH 35/61] fix: long animations ran out of open files

---
 yuca/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yuca/utils.py b/yuca/utils.py
index 3e7ad61..bba022d 100644
--- a/yuca/utils.py
+++ b/yuca/utils.py
@@ -161,6 +161,8 @@ def make_gif(frames_path="./assets/gif_frames/", gif_path="./assets", \
             image_path = os.path.join(frames_path, filename)
             image_paths.append(image_path)
             frames.append(Image.open(image_path))
+            # read the frame now, it would keep its file open otherwise
+            frames[-1].load()
 
     try: 
         assert len(frames) > 1, "no frames to make gif"
-- 
2.43.0


From a0f5977627c5445938c1e332a4d4b8ac12fac8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:10 +0000
Subject: [PATCH 36/61] fix: damage masks failed for some image sizes

---
 yuca/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/yuca/utils.py b/yuca/utils.py
index bba022d..dadd2dc 100644
--- a/yuca/utils.py
+++ b/yuca/utils.py
@@ -42,9 +42,10 @@ def get_bite_mask(img, bite_radius, coords=None):
     if coords is None:
         coords = np.random.rand(2) * radius
 
+    # as many coordinates as cells, np.arange with a fractional step may return one more
     xx, yy = np.meshgrid(\
-            np.arange(-radius, radius + 1, (2 * radius + 1)/ (2*radius)), \
-            np.arange(-radius, radius + 1, (2 * radius + 1)/ (2*radius)))
+            -radius + np.arange(img.shape[3]) * (2 * radius + 1) / img.shape[3], \
+            -radius + np.arange(img.shape[2]) * (2 * radius + 1) / img.shape[2])
 
     grid = np.sqrt((xx-coords[0])**2 + (yy-coords[1])**2) / radius
 
-- 
2.43.0


From 8a3daceed77979c129463f7e7366f1d862f4d924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:10 +0000
Subject: [PATCH 37/61] fix: prepared inputs had the batch size of the image
 for channels

---
 yuca/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yuca/utils.py b/yuca/utils.py
index dadd2dc..f7dde15 100644
--- a/yuca/utils.py
+++ b/yuca/utils.py
@@ -69,7 +69,7 @@ def get_aperture(img, aperture_radius):
 def prep_input(img, external_channels=None, \
         batch_size=32, aperture_radius=1.0, bite_radius=0.1, noise_level=0.05):
 
-    external_channels = img.shape[0] if external_channels is None \
+    external_channels = img.shape[1] if external_channels is None \
             else external_channels
 
     batch = torch.zeros(batch_size, external_channels, img.shape[2], img.shape[3])
-- 
2.43.0


From 03dbc91462436c069af53b8faae27bf5586cbd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:20 +0000
Subject: [PATCH 38/61] fix: conditional entropy counted cells instead of pairs
 of cell and neighbor

---
 yuca/analyze.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/yuca/analyze.py b/yuca/analyze.py
index c0053bd..def77d8 100644
--- a/yuca/analyze.py
+++ b/yuca/analyze.py
@@ -109,11 +109,9 @@ def get_conditional_grid_entropy(grid, direction=0):
     uint8_grid_shifted = np_shift(uint8_grid, shift)
     
     
+    # count the pairs of cell and neighbor values
     p = np.zeros((256, 256))
-    
-    for ii in range(p.shape[0]):
-        for jj in range(p.shape[1]):
-            p[ii,jj] = np.sum((uint8_grid == ii) == (uint8_grid_shifted == jj))
+    np.add.at(p, (uint8_grid, uint8_grid_shifted), 1)
     
     # normalize p
     p_su = p / p.sum()
@@ -124,7 +122,8 @@ def get_conditional_grid_entropy(grid, direction=0):
     for kk in range(p_s_given_u.shape[0]):
         for ll in range(p_s_given_u.shape[1]):
             
-            p_s_given_u[kk, ll] = p[kk,ll] / np.sum(p[:,ll])
+            if p[kk,ll] > 0:
+                p_s_given_u[kk, ll] = p[kk,ll] / np.sum(p[:,ll])
             
     
     h = - np.sum( p_su * np.log2( eps+p_s_given_u))
-- 
2.43.0


From 4e34e7d32d8da03563cfeef0a0bcb3f0717f5b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:20 +0000
Subject: [PATCH 39/61] fix: entropy of a uniform grid divided zero by zero

---
 yuca/analyze.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/yuca/analyze.py b/yuca/analyze.py
index def77d8..c83ff86 100644
--- a/yuca/analyze.py
+++ b/yuca/analyze.py
@@ -27,6 +27,16 @@ def np_shift(grid, shift):
     
     return new_grid
     
+def stretch_grid(grid):
+    """
+    rescale a grid to the range 0 to 1, a uniform grid is all 0
+    """
+
+    stretched_grid = grid - np.min(grid)
+    max_value = np.max(stretched_grid)
+
+    return stretched_grid / max_value if max_value > 0 else 0.0 * stretched_grid
+
 def get_grid_entropy(grid):
     """
     $
@@ -37,7 +47,7 @@ def get_grid_entropy(grid):
     eps = 1e-9
     # convert grid to uint8
     
-    stretched_grid = (grid - np.min(grid)) / np.max(grid - np.min(grid))
+    stretched_grid = stretch_grid(grid)
     
     uint8_grid = np.uint8(255*stretched_grid)
     
@@ -102,7 +112,7 @@ def get_conditional_grid_entropy(grid, direction=0):
         
     # convert grid to uint8
     
-    stretched_grid = (grid - np.min(grid)) / np.max(grid - np.min(grid))
+    stretched_grid = stretch_grid(grid)
     
     uint8_grid = np.uint8(255*stretched_grid)
     
-- 
2.43.0


From 47e1d0e06a636c840c1377eed922c66f7b05d3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:20 +0000
Subject: [PATCH 40/61] fix: spatial entropy windows left out their last row
 and column

---
 yuca/analyze.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yuca/analyze.py b/yuca/analyze.py
index c83ff86..ed92b76 100644
--- a/yuca/analyze.py
+++ b/yuca/analyze.py
@@ -79,9 +79,9 @@ def get_spatial_entropy(grid, window_size=63):
             #        padded_grid[xx+half_window:xx + 2*half_window+1, \
             #        yy+half_window:yy +2*half_window+1])
             x_start = int(max([xx-half_window, 0]))
-            x_end = int(min([xx+half_window,dim_grid[0]]))
+            x_end = int(min([xx+half_window+1,dim_grid[0]]))
             y_start = int(max([yy-half_window, 0]))
-            y_end = int(min([yy+half_window, dim_grid[1]]))
+            y_end = int(min([yy+half_window+1, dim_grid[1]]))
             spatial_h[xx,yy] = get_grid_entropy(grid[x_start:x_end, y_start:y_end])#.detach().cpu().numpy()) 
             
     return spatial_h
-- 
2.43.0


From 65c6b4dad2b0f036c3eb3599e01a0d9bd3e87b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:20 +0000
Subject: [PATCH 41/61] fix: spatial entropies of integer grids were cut to
 integers

---
 yuca/analyze.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yuca/analyze.py b/yuca/analyze.py
index ed92b76..07492e6 100644
--- a/yuca/analyze.py
+++ b/yuca/analyze.py
@@ -70,7 +70,7 @@ def get_spatial_entropy(grid, window_size=63):
     
     padded_grid = np.pad(grid, pad_width=(0), mode="wrap")
     
-    spatial_h = np.zeros_like(grid)
+    spatial_h = np.zeros(grid.shape)
     
     for xx in range(dim_grid[0]): #half_window, half_window + dim_grid[0]):
         for yy in range(dim_grid[1]): #half_window, half_window + dim_grid[1]):
@@ -251,7 +251,7 @@ class Phanes():
             
             padded_grid = np.pad(grid, pad_width=(half_window), mode="wrap")
             
-            spatial_h = np.zeros_like(grid)
+            spatial_h = np.zeros(grid.shape)
             
             for xx in range(dim_grid[0]): #half_window, half_window + dim_grid[0]):
                 for yy in range(dim_grid[1]): #half_window, half_window + dim_grid[1]):
-- 
2.43.0


From 377e4376bcfdc68dd2c76d15f3b25e5b5f825078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:20 +0000
Subject: [PATCH 42/61] fix: analysis results were lost or saved a directory
 too high

---
 yuca/analyze.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yuca/analyze.py b/yuca/analyze.py
index 07492e6..3e11a9f 100644
--- a/yuca/analyze.py
+++ b/yuca/analyze.py
@@ -427,8 +427,10 @@ class Phanes():
 
                 print(progress_msg)
 
-                save_directory = os.path.split(os.path.split(my_directory)[0])[0]
+                # next to the input directory, with or without a trailing slash
+                save_directory = os.path.split(os.path.normpath(my_directory))[0]
                 save_directory = os.path.join(save_directory, "ca_analysis")
+                os.makedirs(save_directory, exist_ok=True)
 
                 
                 save_name = os.path.splitext(filename)[0] \
-- 
2.43.0


From 7ac2cafd7eded2ddba612ec81f3e2d1163ce781d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:37 +0000
Subject: [PATCH 43/61] fix: cloning saved the last weights instead of the best

---
 yuca/clone.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/yuca/clone.py b/yuca/clone.py
index 9d9d078..e46b9f2 100644
--- a/yuca/clone.py
+++ b/yuca/clone.py
@@ -1,4 +1,5 @@
 import argparse
+import copy
 import os
 import time
 
@@ -97,16 +98,6 @@ def clone_from_ca(**kwargs):
                     loss = ((target-predicted).abs() / (1e-9 + target.abs())).mean()
                     #(F.mse_loss(predicted, target) + F.mae_loss(predicted, target))
 
-                    loss.backward()
-                    clipping_value = 1e-1 
-                    torch.nn.utils.clip_grad_norm(nca.weights_layer.parameters(), clipping_value)
-                    optimizer.step()
-
-                    if smooth_loss is None:
-                        smooth_loss = loss.detach()
-                    else:
-                        smooth_loss = loss.detach() #smooth_loss * loss_alpha + (1-loss_alpha) * loss.detach()
-
                     relative_error = (torch.abs(predicted - target)/(target.abs()+1e-9)).mean()
 
                     if relative_error < iteration_best_error:
@@ -114,7 +105,8 @@ def clone_from_ca(**kwargs):
 
                         if relative_error < best_error:
                             best_error = relative_error
-                            best_state_dict = nca.state_dict()
+                            # the weights that made this prediction
+                            best_state_dict = copy.deepcopy(nca.state_dict())
 
                         if verbose:
                             msg = f"iteration {iteration} new best relative error at step {step} "\
@@ -124,6 +116,15 @@ def clone_from_ca(**kwargs):
                         if iteration_best_error < error_threshold:
                             break
 
+                    loss.backward()
+                    clipping_value = 1e-1 
+                    torch.nn.utils.clip_grad_norm(nca.weights_layer.parameters(), clipping_value)
+                    optimizer.step()
+
+                    if smooth_loss is None:
+                        smooth_loss = loss.detach()
+                    else:
+                        smooth_loss = loss.detach() #smooth_loss * loss_alpha + (1-loss_alpha) * loss.detach()
 
                     if step % display_every == 0:
                         new_params = nca.get_params()
-- 
2.43.0


From eaca010ec77da08803546b7f547760376504b05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:37 +0000
Subject: [PATCH 44/61] fix: cloned networks were trained with the default
 neighborhood

---
 yuca/clone.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yuca/clone.py b/yuca/clone.py
index e46b9f2..bb4a6ad 100644
--- a/yuca/clone.py
+++ b/yuca/clone.py
@@ -63,6 +63,7 @@ def clone_from_ca(**kwargs):
                     external_channels=external_channels,\
                     hidden_channels=hidden_channels)
             nca.add_neighborhood_kernel(ca.neighborhood_kernels)
+            nca.initialize_neighborhood_layer()
             nca.yes_grad()
 
             optimizer = torch.optim.Adam(nca.weights_layer.parameters(), lr=learning_rate)
-- 
2.43.0


From a450918cdedd4081b29ffb384dc28bae9c6f71ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:37 +0000
Subject: [PATCH 45/61] fix: every clone of a list was saved under the first
 name

---
 yuca/clone.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/yuca/clone.py b/yuca/clone.py
index bb4a6ad..e59188b 100644
--- a/yuca/clone.py
+++ b/yuca/clone.py
@@ -33,7 +33,6 @@ def clone_from_ca(**kwargs):
     learning_rate = query_kwargs("learning_rate", 1e-3, **kwargs)
     verbose = query_kwargs("verbose", False, **kwargs)
     save_name = query_kwargs("save_name", "default_nca.pt", **kwargs)
-    save_path = os.path.join(log_directory, save_name)
 
 
     best_state_dict = None
@@ -151,9 +150,10 @@ def clone_from_ca(**kwargs):
         else:
             msg += f"\tdid not meet error threshold {error_threshold:.3e} with loss {best_error:.3e}\n"
 
-        if "ca_config" in save_path:
-            config_name = os.path.splitext(ca_config)[0] 
-            save_path = save_path.replace("ca_config", config_name)
+        # each ca_config gets its own file
+        config_name = os.path.splitext(os.path.basename(ca_config))[0] 
+        save_path = os.path.join(log_directory, \
+                save_name.replace("ca_config", config_name))
 
         msg += f"saving to {save_path}"
         print(msg)
-- 
2.43.0


From 604c1d98864d1fb9948ff1d3586c9215f2cdb505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:39 +0000
Subject: [PATCH 46/61] fix: the smooth glider could only be loaded from the
 repository directory

---
 yuca/patterns.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yuca/patterns.py b/yuca/patterns.py
index 5fd4121..8997ee2 100644
--- a/yuca/patterns.py
+++ b/yuca/patterns.py
@@ -345,7 +345,8 @@ def get_ltl_spaceship():
 
 def get_smooth_glider():
     # SmoothLife glider
-    found_glider = np.load("data/s_mn_glider.npy")
+    data_path = os.path.split(os.path.split(os.path.realpath(__file__))[0])[0]
+    found_glider = np.load(os.path.join(data_path, "data", "s_mn_glider.npy"))
     return found_glider 
 
 
-- 
2.43.0


From 3868d7956d389283e565c8b3838273d5a3c506fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:00 +0000
Subject: [PATCH 47/61] fix: the step predictor trained and evaluated the
 script's global model instead of itself

---
 yuca/step_predictor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/yuca/step_predictor.py b/yuca/step_predictor.py
index f108594..5d3f869 100644
--- a/yuca/step_predictor.py
+++ b/yuca/step_predictor.py
@@ -102,7 +102,7 @@ class StepPredictor(nn.Module):
 
                 optimizer.zero_grad()
 
-                pred = model(batch_x.to(self.my_device))
+                pred = self(batch_x.to(self.my_device))
 
                 loss = torch.mean((batch_y.to(self.my_device) - pred)**2)
 
@@ -126,7 +126,7 @@ class StepPredictor(nn.Module):
                 with torch.no_grad():
                     for batch_x, batch_y in val_dataloader:
 
-                        pred = model(batch_x.to(self.my_device))
+                        pred = self(batch_x.to(self.my_device))
 
                         #mse loss
                         val_loss += torch.sum((batch_y.to(self.my_device) - pred)**2)
@@ -174,7 +174,7 @@ class StepPredictor(nn.Module):
 
             for batch_x, batch_y in test_dataloader:
 
-                pred = model(batch_x.to(self.my_device))
+                pred = self(batch_x.to(self.my_device))
 
                 #mse loss
                 test_loss += torch.sum((batch_y.to(self.my_device) - pred)**2)
-- 
2.43.0


From e52c32e6d6c4575ca57f9dcb4471f66a859dc4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:00 +0000
Subject: [PATCH 48/61] fix: the step predictor saved its weights below its log
 file

---
 yuca/step_predictor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yuca/step_predictor.py b/yuca/step_predictor.py
index 5d3f869..8231e3d 100644
--- a/yuca/step_predictor.py
+++ b/yuca/step_predictor.py
@@ -157,8 +157,8 @@ class StepPredictor(nn.Module):
                 save_path = os.path.split(os.path.split(\
                         os.path.realpath(__file__))[0])[0]
 
-                save_path = os.path.join(save_path, "logs", f"{self.exp_tag}.npy")
                 model_save_path = os.path.join(save_path, "models", f"{self.exp_tag}_model.pt")
+                save_path = os.path.join(save_path, "logs", f"{self.exp_tag}.npy")
 
                 np.save(save_path, progress)
                 torch.save(self.state_dict(), model_save_path)
-- 
2.43.0


From 2512a8297ae551aeb4f9b2ed9130425049aa1e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:00 +0000
Subject: [PATCH 49/61] fix: the step predictor used only half of its layers

---
 yuca/step_predictor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yuca/step_predictor.py b/yuca/step_predictor.py
index 8231e3d..897cc14 100644
--- a/yuca/step_predictor.py
+++ b/yuca/step_predictor.py
@@ -68,7 +68,7 @@ class StepPredictor(nn.Module):
                     
     def forward(self, x):
 
-        for jj in range(0, self.layer_repeats, 2):
+        for jj in range(0, 2 * self.layer_repeats, 2):
             
             x0 = torch.relu(self.conv_layers[jj](x))
             x1 = F.dropout(x0, p = self.dropout, training=self.training)
-- 
2.43.0


From b0b5cf243ad4f9a43d4915680ab5b12d0a2e4f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:27 +0000
Subject: [PATCH 50/61] fix: coevolution resumed from the log of a smaller
 population raised

---
 yuca/cmaes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yuca/cmaes.py b/yuca/cmaes.py
index 15bdc37..2112b81 100644
--- a/yuca/cmaes.py
+++ b/yuca/cmaes.py
@@ -701,7 +701,8 @@ class CMACES(CMAES):
     def save_gif(self, tag="", grid=None):
 
         for elite_idx in range(self.elite_keep):
-            if self.elite_params is not None:
+            # there may be fewer elites when resuming from a smaller population
+            if self.elite_params is not None and elite_idx < len(self.elite_params):
                 self.population[elite_idx].set_params(self.elite_params[elite_idx])
 
             rule_action, pattern_action = self.population[elite_idx].get_action()
-- 
2.43.0


From 7fe22124b866355bbf258cb7b1e2122e9e1e816f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:04 +0000
Subject: [PATCH 51/61] fix: searches resumed from a log played its parameters
 on other kinds of growth functions

---
 yuca/ca/continuous.py           | 38 ++++++++++++++++++++++++++++++++-
 yuca/wrappers/glider_wrapper.py |  5 ++++-
 2 files changed, 41 insertions(+), 2 deletions(-)

diff --git a/yuca/ca/continuous.py b/yuca/ca/continuous.py
index 8dc8ac8..ddf486e 100644
--- a/yuca/ca/continuous.py
+++ b/yuca/ca/continuous.py
@@ -88,13 +88,49 @@ class CCA(CA):
 
             my_params = my_data["elite_params"][-1][0]
 
-            self.set_params(my_params)
+            if query_kwargs("ca_config", None, **kwargs) is None:
+                self.restore_logged_rule(my_data)
+
+            # only the logs of rule searches hold rule parameters
+            if my_params.shape[0] == self.get_params().shape[0]:
+                self.set_params(my_params)
 
         self.reset()
 
         if not self.use_grad:
             self.no_grad()
 
+    def restore_logged_rule(self, my_data):
+        """
+        the parameters in a log belong to the kernel and kinds of growth 
+        functions in its configs (kinds are chosen at random by default)
+        """
+
+        my_configs = my_data.get("elite_configs", [])
+
+        if self.internal_channels > 1 or not len(my_configs):
+            return
+
+        config = copy.deepcopy(my_configs[-1][0])
+
+        if "genesis_config" not in config.keys():
+            return
+
+        kernel_config = config["neighborhood_kernel_config"]
+        kernel_config["radius"] = self.kernel_radius
+        self.set_kernel_config(kernel_config)
+
+        self.genesis_fns = []
+        self.persistence_fns = []
+        self.add_genesis_fn(config["genesis_config"])
+        self.add_persistence_fn(config["persistence_config"])
+
+        self.genesis_fn_config = config["genesis_config"]
+        self.persistence_fn_config = config["persistence_config"]
+
+        self.set_dt(config["dt"])
+        self.include_parameters()
+
     def reset(self):
         
         self.t_count = 0.0
diff --git a/yuca/wrappers/glider_wrapper.py b/yuca/wrappers/glider_wrapper.py
index 596f12f..7b8efb4 100644
--- a/yuca/wrappers/glider_wrapper.py
+++ b/yuca/wrappers/glider_wrapper.py
@@ -39,7 +39,10 @@ class GliderWrapper():
 
             my_data = np.load(self.input_filepath, allow_pickle=True).reshape(1)[0]
             my_params = my_data["elite_params"][-1][0]
-            self.ca.set_params(my_params)
+
+            # only the logs of rule searches hold rule parameters
+            if my_params.shape[0] == self.ca.get_params().shape[0]:
+                self.ca.set_params(my_params)
 
         else:
             self.ca.no_grad()
-- 
2.43.0


From fa9cc48bc599c1ccb4c420b9bb305be9da135d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:07 +0000
Subject: [PATCH 52/61] fix: rules saved by a resumed search could not be
 loaded without its log

---
 yuca/ca/continuous.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/yuca/ca/continuous.py b/yuca/ca/continuous.py
index ddf486e..3cd934e 100644
--- a/yuca/ca/continuous.py
+++ b/yuca/ca/continuous.py
@@ -138,7 +138,11 @@ class CCA(CA):
     def load_config(self, config):
 
         if "instant_kwargs" in config.keys():
-            self.__init__(**config["instant_kwargs"])
+            # the log of a resumed search may be gone (and is not the rule)
+            instant_kwargs = {key: elem for key, elem \
+                    in config["instant_kwargs"].items() \
+                    if key != "input_filepath"}
+            self.__init__(**instant_kwargs)
 
         self.genesis_fns = []
         self.persistence_fns = []
-- 
2.43.0


From 61cb37d010154d0fff4bbd38c23c34362dd598bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:48 +0000
Subject: [PATCH 53/61] fix: recorded command lines separated values with
 hyphens from their options

---
 yuca/evolve.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yuca/evolve.py b/yuca/evolve.py
index 8cc512a..8925063 100644
--- a/yuca/evolve.py
+++ b/yuca/evolve.py
@@ -236,7 +236,9 @@ if __name__ == "__main__":
     sorted_args = []
     for aa in range(0, len(args_list)):
 
-        if "-" in args_list[aa]:
+        # values may contain hyphens or be negative numbers
+        if args_list[aa].startswith("-") \
+                and not args_list[aa][1:2].isdigit():
             sorted_args.append([args_list[aa]])
         else: 
             sorted_args[-1].append(args_list[aa])
-- 
2.43.0


From 945c45dddd514f5bdc233caec3d28fdc693cfa33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:01 +0000
Subject: [PATCH 54/61] fix: fitness plots labelled best and worst fitness as
 mean fitness

---
 yuca/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yuca/plot.py b/yuca/plot.py
index 4320284..09061dd 100644
--- a/yuca/plot.py
+++ b/yuca/plot.py
@@ -63,10 +63,10 @@ def plot_exp(**kwargs):
             color = my_cmap(128))
     plt.plot([gen for gen in range(len(mean_fitness))], \
             max_fitness, "--", lw=1, alpha = 0.95, color = "k",\
-            label="mean fitness")
+            label="max fitness")
     plt.plot([gen for gen in range(len(mean_fitness))], \
             min_fitness, "--", lw=1, alpha = 0.95, color = "k",\
-            label="mean fitness")
+            label="min fitness")
     plt.fill_between([gen for gen in range(len(mean_fitness))], \
             mean_fitness - std_dev_fitness, mean_fitness + std_dev_fitness,\
             alpha=0.25, color = my_cmap(128))
-- 
2.43.0


From ff3996b56419377988e3e98830245207cfb7277e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:01 +0000
Subject: [PATCH 55/61] fix: plotting logs of neural and reaction-diffusion
 searches raised

---
 yuca/plot.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/yuca/plot.py b/yuca/plot.py
index 09061dd..42127c5 100644
--- a/yuca/plot.py
+++ b/yuca/plot.py
@@ -30,6 +30,10 @@ def plot_exp(**kwargs):
 
     for ii, my_config in enumerate(end_configs):
 
+        # neural and reaction-diffusion CA have no update functions to show
+        if "genesis_config" not in my_config.keys():
+            continue
+
         cca = CCA()
         cca.load_config(my_config)
 
-- 
2.43.0


From b72d7e0d6b50368b287dba7cccbda9a60e8859d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:13 +0000
Subject: [PATCH 56/61] fix: plotting polynomial and plain update functions
 raised

---
 yuca/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yuca/plot.py b/yuca/plot.py
index 42127c5..39b8766 100644
--- a/yuca/plot.py
+++ b/yuca/plot.py
@@ -42,8 +42,8 @@ def plot_exp(**kwargs):
 
             x = np.arange(-0.1, 1.1, 0.0001)
 
-            y_gen = genesis_fn(x).detach().numpy()
-            y_per = persistence_fn(x).detach().numpy()
+            y_gen = genesis_fn(torch.tensor(x)).detach().numpy()
+            y_per = persistence_fn(torch.tensor(x)).detach().numpy()
 
             plt.figure()
             plt.title(f"End params {ii} update rules")
-- 
2.43.0


From a68e65875fd3fa152d25c96f517d56063443565a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:11 +0000
Subject: [PATCH 57/61] fix: reaction-diffusion automaton ignored the rule file
 it was created with

---
 yuca/ca/reaction_diffusion.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/yuca/ca/reaction_diffusion.py b/yuca/ca/reaction_diffusion.py
index 4ef7ffb..c5f313a 100644
--- a/yuca/ca/reaction_diffusion.py
+++ b/yuca/ca/reaction_diffusion.py
@@ -35,6 +35,10 @@ class RxnDfn(CA):
         self.kernel_radius = 1
 
         self.default_init()
+
+        if query_kwargs("ca_config", None, **kwargs) is not None:
+            self.restore_config(kwargs["ca_config"])
+
         self.reset()
 
     def get_dx(self):
-- 
2.43.0


From 305939c6a9b7068b38f583688aac66fd098e1632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:03 +0000
Subject: [PATCH 58/61] fix: neural rules were evaluated with dropout in
 coevolution and with the halting predictor

---
 yuca/cmaes.py                    | 1 +
 yuca/wrappers/halting_wrapper.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/yuca/cmaes.py b/yuca/cmaes.py
index 2112b81..b8b79d0 100644
--- a/yuca/cmaes.py
+++ b/yuca/cmaes.py
@@ -644,6 +644,7 @@ class CMACES(CMAES):
 
             self.env.reset()
             self.env.to_device(self.my_device)
+            self.env.eval()
 
             for step in range(steps):
                 rule_action, pattern_action = self.population[agent_index].get_action()
diff --git a/yuca/wrappers/halting_wrapper.py b/yuca/wrappers/halting_wrapper.py
index 9c1d159..915510d 100644
--- a/yuca/wrappers/halting_wrapper.py
+++ b/yuca/wrappers/halting_wrapper.py
@@ -202,6 +202,7 @@ class HaltingWrapper(nn.Module):
 
     def eval(self):
 
+        self.ca.eval()
         self.final_layer.eval()
         for jj in range(len(self.layers)):
             self.layers[jj].eval()
-- 
2.43.0


From a2b37e86c9ac56187692bf1198bc6bce54202e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:03 +0000
Subject: [PATCH 59/61] fix: neural automata created with a rule file without
 settings, or a missing one, raised

---
 yuca/ca/neural.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/yuca/ca/neural.py b/yuca/ca/neural.py
index c4de94e..d0d06b3 100644
--- a/yuca/ca/neural.py
+++ b/yuca/ca/neural.py
@@ -71,13 +71,11 @@ class NCA(CA):
             print(f"Defaulting to Gaussian activation function")
             self.act = Gaussian
 
+        self.default_init()
+
         if "ca_config" in kwargs.keys():
             if kwargs["ca_config"] is not None:
                 self.restore_config(kwargs["ca_config"])
-            else:
-                self.default_init()
-        else:
-            self.default_init()
 
         self.reset()
 
-- 
2.43.0


From cda0c66b566c2aafc3b771a32e91f6c89d89537d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:03 +0000
Subject: [PATCH 60/61] fix: rules saved over the file their automaton was
 created from could not be loaded

---
 yuca/ca/continuous.py | 5 +++--
 yuca/ca/neural.py     | 6 +++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/yuca/ca/continuous.py b/yuca/ca/continuous.py
index 3cd934e..0d4fc7c 100644
--- a/yuca/ca/continuous.py
+++ b/yuca/ca/continuous.py
@@ -138,10 +138,11 @@ class CCA(CA):
     def load_config(self, config):
 
         if "instant_kwargs" in config.keys():
-            # the log of a resumed search may be gone (and is not the rule)
+            # the log of a resumed search may be gone (and is not the rule), 
+            # and the rule file started from may have been replaced by this one
             instant_kwargs = {key: elem for key, elem \
                     in config["instant_kwargs"].items() \
-                    if key != "input_filepath"}
+                    if key not in ["input_filepath", "ca_config"]}
             self.__init__(**instant_kwargs)
 
         self.genesis_fns = []
diff --git a/yuca/ca/neural.py b/yuca/ca/neural.py
index d0d06b3..85afed1 100644
--- a/yuca/ca/neural.py
+++ b/yuca/ca/neural.py
@@ -126,7 +126,11 @@ class NCA(CA):
     def load_config(self, config):
 
         if "instant_kwargs" in config.keys():
-            self.__init__(**config["instant_kwargs"])
+            # the rule file started from may have been replaced by this one
+            instant_kwargs = {key: elem for key, elem \
+                    in config["instant_kwargs"].items() \
+                    if key != "ca_config"}
+            self.__init__(**instant_kwargs)
 
 
         # settings may change later, but not in the caller's config
-- 
2.43.0


From f90a0a10f84d27cff2b175d5fa3df768365a57dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:54 +0000
Subject: [PATCH 61/61] fix: analysing universes of odd size raised

---
 yuca/analyze.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yuca/analyze.py b/yuca/analyze.py
index 3e11a9f..a540707 100644
--- a/yuca/analyze.py
+++ b/yuca/analyze.py
@@ -315,7 +315,9 @@ class Phanes():
                 grid[:,:,:,-b_dim//2:] *= 0
         else:
 
-            grid[:,:,b_dim//2:-b_dim//2, b_dim//2:-b_dim//2] = torch.rand(\
+            # as many cells as random values, for odd dimensions as well
+            start = (self.dim - b_dim) // 2
+            grid[:,:,start:start+b_dim, start:start+b_dim] = torch.rand(\
                     self.batch_size, 1, b_dim, b_dim)
 
         # escape mask checks for patterns that escape the bounding box
-- 
2.43.0

