From 4b1df1d78aef64d63625ff6d6de21f2de1b5e767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:45 +0000
Subject: [PATCH 01/24] fix: make the array subtract and divide blocks usable

SubtractA and DivideA could not be instantiated: the signal handles have no
arithmetic operators of their own. Operate on the signals' values.
---
 src/block/extra/divide.hpp   | 2 +-
 src/block/extra/subtract.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/block/extra/divide.hpp b/src/block/extra/divide.hpp
index 6b9add3..9c582f3 100644
--- a/src/block/extra/divide.hpp
+++ b/src/block/extra/divide.hpp
@@ -54,7 +54,7 @@ public:
     void activation_function(double /*t*/) override
     {
         pooya_trace("block: " + Base::full_name().str());
-        Base::_s_out = _s_x1 / _s_x2;
+        Base::_s_out = _s_x1->get_value() / _s_x2->get_value();
     }
 
 protected:
diff --git a/src/block/extra/subtract.hpp b/src/block/extra/subtract.hpp
index f75f706..82a20f0 100644
--- a/src/block/extra/subtract.hpp
+++ b/src/block/extra/subtract.hpp
@@ -54,7 +54,7 @@ public:
     void activation_function(double /*t*/) override
     {
         pooya_trace("block: " + Base::full_name().str());
-        Base::_s_out = _s_x1 - _s_x2;
+        Base::_s_out = _s_x1->get_value() - _s_x2->get_value();
     }
 
 protected:
-- 
2.43.0


From 54eb0da22d92ecc88d340005c11253d2b6530deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:02 +0000
Subject: [PATCH 02/24] fix: set up the reused processing order of stateless
 models too

Simulator(..., reuse_order = true) dereferenced null processing orders when the
model had no state variables.
---
 src/solver/simulator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/simulator.cpp b/src/solver/simulator.cpp
index f385ba8..5e01b06 100644
--- a/src/solver/simulator.cpp
+++ b/src/solver/simulator.cpp
@@ -126,7 +126,7 @@ void Simulator::init(double t0)
 
     SimulatorBase::init(t0);
 
-    if (_state_variables.size() > 0 && _reuse_order)
+    if (_reuse_order)
     {
         pooya_debug_verify0(_processing_order1.empty());
         pooya_debug_verify0(_processing_order2.empty());
-- 
2.43.0


From c1b8b4d1cfb68286253389101c037c27c8f7881a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:39 +0000
Subject: [PATCH 03/24] fix: evaluate the model only once when initializing the
 fast simulator

The blocks were activated a second time after the processing order had been
found, with another pre_step in between: a triggered integrator that is
triggered at the initial time lost its initial condition.
---
 src/solver/fast_simulator.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/solver/fast_simulator.cpp b/src/solver/fast_simulator.cpp
index 2636a1c..98d30a0 100644
--- a/src/solver/fast_simulator.cpp
+++ b/src/solver/fast_simulator.cpp
@@ -114,9 +114,8 @@ void FastSimulator::init(double t0)
 
     _processing_order.shrink_to_fit();
 
-    for (auto& sig : value_signals_) sig->clear();
-
-    process_model(t0, true, true);
+    // the model is fully processed for t0 at this point
+    _model.post_step(t0);
 }
 
 } // namespace pooya
-- 
2.43.0


From db5de037bc8170290471a46478afbed46904f90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:20 +0000
Subject: [PATCH 04/24] fix: keep the sample before the lifespan of a delay
 block

All samples older than the lifespan were discarded, although a delay within the
lifespan may look up an instant between the last discarded sample and the first
kept one: the block then returned to its initial value.
---
 src/block/extra/delay.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/block/extra/delay.hpp b/src/block/extra/delay.hpp
index 06f71b2..0e18e38 100644
--- a/src/block/extra/delay.hpp
+++ b/src/block/extra/delay.hpp
@@ -71,6 +71,8 @@ public:
                 }
                 k++;
             }
+            // keep the last sample before t1, which the lookups between it and the next one need
+            if (k > 0) k--;
             _t.erase(_t.begin(), _t.begin() + k);
             _x.erase(_x.begin(), _x.begin() + k);
         }
-- 
2.43.0


From 32ff4f91e16e84d1ebf6d7a448d1fd6ae5181cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:20 +0000
Subject: [PATCH 05/24] fix: make the array derivative block usable

DerivativeA could not be instantiated: the signal handles have no arithmetic
operators of their own.
---
 src/block/extra/derivative.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/block/extra/derivative.hpp b/src/block/extra/derivative.hpp
index 9f6c5cb..ee5608d 100644
--- a/src/block/extra/derivative.hpp
+++ b/src/block/extra/derivative.hpp
@@ -63,7 +63,7 @@ public:
         }
         else
         {
-            Base::_s_out = (Base::_s_in - _x) / (t - _t);
+            Base::_s_out = (Base::_s_in->get_value() - _x) / (t - _t);
         }
     }
 
-- 
2.43.0


From 1f2120cba24f1f2357f79fe9a53c195cb8c16996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:54 +0000
Subject: [PATCH 06/24] fix: repeat the output, not the input, of a derivative
 block

Evaluated again at the instant of its last completed step (as every stepper does
at the start of the next step), a derivative block returned its input.
---
 src/block/extra/derivative.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/block/extra/derivative.hpp b/src/block/extra/derivative.hpp
index ee5608d..d9a62b6 100644
--- a/src/block/extra/derivative.hpp
+++ b/src/block/extra/derivative.hpp
@@ -44,7 +44,7 @@ public:
         pooya_trace("block: " + Base::full_name().str());
         _t          = t;
         _x          = Base::_s_in;
-        _y          = _x;
+        _y          = Base::_s_out;
         _first_step = false;
     }
 
-- 
2.43.0


From 3c27911e5f773c345317bf2e2e89cd73f29c628d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:54 +0000
Subject: [PATCH 07/24] fix: make the initial value block compile

InitialValueT used members that signals and buses do not have, so that it could
not be instantiated.
---
 src/block/extra/initial_value.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/block/extra/initial_value.hpp b/src/block/extra/initial_value.hpp
index e1c6212..60dde2d 100644
--- a/src/block/extra/initial_value.hpp
+++ b/src/block/extra/initial_value.hpp
@@ -41,11 +41,10 @@ public:
         pooya_trace("block: " + Base::full_name().str());
         if (_init)
         {
-            _value      = Base::_s_in->get();
-            Base::_ibus = nullptr;
-            _init       = false;
+            _value = Base::_s_in->get_value();
+            _init  = false;
         }
-        Base::_s_out->set(_value);
+        Base::_s_out = _value;
     }
 
 protected:
-- 
2.43.0


From 97dd905cee9555a8633434d2c71b12c80c518268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:46 +0000
Subject: [PATCH 08/24] fix: restart a triggered integrator only once, after a
 completed step

---
 src/block/extra/triggered_integrator.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/block/extra/triggered_integrator.hpp b/src/block/extra/triggered_integrator.hpp
index 2d56709..4814311 100644
--- a/src/block/extra/triggered_integrator.hpp
+++ b/src/block/extra/triggered_integrator.hpp
@@ -72,13 +72,11 @@ public:
         Base::pre_step(t);
     }
 
-    void activation_function(double /*t*/) override
+    void post_step(double t) override
     {
         pooya_trace("block: " + Base::full_name().str());
-        if (!_triggered)
-        {
-            _triggered = _trigger;
-        }
+        Base::post_step(t);
+        _triggered = _trigger;
     }
 
 protected:
-- 
2.43.0


From 66aef60aea1ea5b66d8854b4e377e50437354e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:32 +0000
Subject: [PATCH 09/24] fix: make room for new rows in a history that does not
 grow by default

---
 src/solver/history.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/solver/history.cpp b/src/solver/history.cpp
index e431206..2c46da8 100644
--- a/src/solver/history.cpp
+++ b/src/solver/history.cpp
@@ -15,6 +15,7 @@ COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER LIABILITY, WHETHER I
 OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
 */
 
+#include <algorithm>
 #include <fstream>
 #include <memory>
 #include <string>
@@ -75,9 +76,10 @@ void History::update(uint k, double t)
         }
     }
 
+    const uint nrows_grow = std::max(_nrows_grow, 1U); // there must be room for row k
     if (k >= _time.rows())
     {
-        _time.conservativeResize(k + _nrows_grow, Eigen::NoChange);
+        _time.conservativeResize(k + nrows_grow, Eigen::NoChange);
     }
     _time(k, 0) = t;
     for (auto& sig : _signals)
@@ -85,7 +87,7 @@ void History::update(uint k, double t)
         auto& h = at(sig);
         if (k >= h.rows())
         {
-            h.conservativeResize(k + _nrows_grow, Eigen::NoChange);
+            h.conservativeResize(k + nrows_grow, Eigen::NoChange);
         }
         bool valid = sig->assigned();
         if (auto* ps = dynamic_cast<ScalarSignalImpl*>(sig.get()); ps)
-- 
2.43.0


From dc274f492380541ae7f9be041cdaa0f438dde2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:52 +0000
Subject: [PATCH 10/24] fix: ignore untracking a signal that is not tracked

---
 src/solver/history.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solver/history.cpp b/src/solver/history.cpp
index 2c46da8..7fb567f 100644
--- a/src/solver/history.cpp
+++ b/src/solver/history.cpp
@@ -42,7 +42,8 @@ void History::untrack(const Signal& sig)
     pooya_debug_verify(empty(), "untrack should be called before the history is updated!");
 
     auto vsig = std::dynamic_pointer_cast<ValueSignalImpl>(sig->shared_from_this());
-    if (vsig) _signals.erase(std::find(_signals.begin(), _signals.end(), vsig));
+    auto it   = std::find(_signals.begin(), _signals.end(), vsig);
+    if (it != _signals.end()) _signals.erase(it);
 }
 
 void History::update(uint k, double t)
-- 
2.43.0


From 6cb0e9aa2d24d26660e3e23f9d7d75c0e8a382a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:52 +0000
Subject: [PATCH 11/24] fix: shrink the values of a history along with its
 times

---
 src/solver/history.cpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/solver/history.cpp b/src/solver/history.cpp
index 7fb567f..fb3c0ad 100644
--- a/src/solver/history.cpp
+++ b/src/solver/history.cpp
@@ -133,11 +133,6 @@ void History::shrink_to_fit()
     pooya_trace0;
     const uint nrows = _bottom_row + 1;
 
-    if (nrows >= _time.rows())
-    {
-        return;
-    } // practically, nrows can't be the greater
-
     _time.conservativeResize(nrows, Eigen::NoChange);
     for (auto& p : *this)
     {
-- 
2.43.0


From 1f503ccd7bf1e32a07886861008bd3b9f4f8f989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:18 +0000
Subject: [PATCH 12/24] fix: export only the recorded rows of a history

---
 src/solver/history.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver/history.cpp b/src/solver/history.cpp
index fb3c0ad..396bb26 100644
--- a/src/solver/history.cpp
+++ b/src/solver/history.cpp
@@ -174,8 +174,8 @@ void History::export_csv(const std::string& filename)
     ofs << "\n";
 
     // values
-    auto n = time().size();
-    for (int k = 0; k < n; k++)
+    const uint n = nrows();
+    for (uint k = 0; k < n; k++)
     {
         ofs << time()(k);
         for (const auto& h : *this)
-- 
2.43.0


From 058354ca34f35d020bb56368615932dd9abd445c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:16 +0000
Subject: [PATCH 13/24] fix: report absent nested labels of a bus as absent

---
 src/signal/bus.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/signal/bus.hpp b/src/signal/bus.hpp
index 1f0d88f..ffc8014 100644
--- a/src/signal/bus.hpp
+++ b/src/signal/bus.hpp
@@ -130,9 +130,9 @@ public:
             return it->second;
         }
 
-        BusImpl* bus = static_cast<BusImpl*>(&it->second.impl());
+        auto* bus = dynamic_cast<BusImpl*>(&it->second.impl());
         if (!bus) return std::nullopt;
-        return bus->at(label.substr(pos + 1));
+        return bus->try_at(label.substr(pos + 1));
     }
 
     Signal operator[](std::string_view label) const { return at(label); }
-- 
2.43.0


From 843ebc97f45846385d61dcc145e44e21f607e222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:16 +0000
Subject: [PATCH 14/24] fix: let a bus block exclude a nested bus by its label

---
 src/block/extra/bus_block_builder.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/block/extra/bus_block_builder.cpp b/src/block/extra/bus_block_builder.cpp
index 4baab28..6c4c3bb 100644
--- a/src/block/extra/bus_block_builder.cpp
+++ b/src/block/extra/bus_block_builder.cpp
@@ -49,17 +49,19 @@ void BusBlockBuilder::visit_bus(const std::string& full_label, const Bus& bus)
 
     for (const auto& [label, sig] : bus)
     {
+        auto new_label = full_label + label;
+        if (std::find(_excluded_labels.begin(), _excluded_labels.end(), new_label) != _excluded_labels.end())
+        {
+            continue;
+        }
+
         if (auto* pa = dynamic_cast<pooya::BusImpl*>(&sig.impl()); pa)
         {
-            visit_bus(full_label + label + ".", Bus(*pa));
+            visit_bus(new_label + ".", Bus(*pa));
         }
         else
         {
-            auto new_label = full_label + label;
-            if (std::find(_excluded_labels.begin(), _excluded_labels.end(), new_label) == _excluded_labels.end())
-            {
-                block_builder(new_label, _ibus.at(new_label), _obus.at(new_label));
-            }
+            block_builder(new_label, _ibus.at(new_label), _obus.at(new_label));
         }
     }
 }
-- 
2.43.0


From c2d5745c222d02873d1c8b5d234a6fef5c8f012d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:46 +0000
Subject: [PATCH 15/24] fix: keep a signal handle bound when rebinding it is
 refused

---
 src/signal/signal.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/signal/signal.hpp b/src/signal/signal.hpp
index 1ce7aad..19ab96d 100644
--- a/src/signal/signal.hpp
+++ b/src/signal/signal.hpp
@@ -84,8 +84,8 @@ public:
 
     virtual void reset(const Signal& sig)
     {
-        _ptr = std::dynamic_pointer_cast<Impl>(sig->shared_from_this());
-        fail_if_invalid_signal_type<T>(_ptr.get());
+        fail_if_invalid_signal_type<T>(&sig.impl());
+        _ptr = sig->shared_from_this();
         update_typed_ptr();
     }
 
-- 
2.43.0


From 470624c4cc468f1bd8ec520b1de32cfe1b8cbebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:37 +0000
Subject: [PATCH 16/24] fix: let a simulator be initialized again

---
 src/solver/fast_simulator.cpp | 2 +-
 src/solver/simulator.cpp      | 4 ++--
 src/solver/simulator_base.cpp | 3 +++
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/solver/fast_simulator.cpp b/src/solver/fast_simulator.cpp
index 98d30a0..593bb6b 100644
--- a/src/solver/fast_simulator.cpp
+++ b/src/solver/fast_simulator.cpp
@@ -46,7 +46,7 @@ void FastSimulator::init(double t0)
 
     SimulatorBase::init(t0);
 
-    pooya_debug_verify0(_processing_order.empty());
+    _processing_order.clear();
 
     uint num_blocks     = 0;
     auto enum_blocks_cb = [&](Block& c, uint32_t /*level*/) -> bool
diff --git a/src/solver/simulator.cpp b/src/solver/simulator.cpp
index 5e01b06..632e11b 100644
--- a/src/solver/simulator.cpp
+++ b/src/solver/simulator.cpp
@@ -128,8 +128,8 @@ void Simulator::init(double t0)
 
     if (_reuse_order)
     {
-        pooya_debug_verify0(_processing_order1.empty());
-        pooya_debug_verify0(_processing_order2.empty());
+        _processing_order1.clear();
+        _processing_order2.clear();
 
         uint num_blocks     = 0;
         auto enum_blocks_cb = [&](Block& /*c*/, uint32_t /*level*/) -> bool
diff --git a/src/solver/simulator_base.cpp b/src/solver/simulator_base.cpp
index 1c4a1e9..c31e9c4 100644
--- a/src/solver/simulator_base.cpp
+++ b/src/solver/simulator_base.cpp
@@ -78,17 +78,20 @@ void SimulatorBase::init(double t0)
         },
         0);
 
+    value_signals_.clear();
     value_signals_.reserve(value_signals.size());
     for (auto* sig : value_signals)
     {
         value_signals_.emplace_back(std::static_pointer_cast<ValueSignalImpl>(sig->shared_from_this()));
     }
+    scalar_state_signals_.clear();
     scalar_state_signals_.reserve(scalar_state_signals.size());
     for (auto* sig : scalar_state_signals)
     {
         scalar_state_signals_.emplace_back(std::static_pointer_cast<ScalarSignalImpl>(sig->shared_from_this()));
     }
 #ifdef POOYA_ARRAY_SIGNAL
+    array_state_signals_.clear();
     array_state_signals_.reserve(array_state_signals.size());
     for (auto* sig : array_state_signals)
     {
-- 
2.43.0


From 653bf964b5b91b32695d57d4edfd5cb22306cce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:41 +0000
Subject: [PATCH 17/24] fix: let the fast simulator take over a model that was
 simulated before

---
 src/solver/fast_simulator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/solver/fast_simulator.cpp b/src/solver/fast_simulator.cpp
index 593bb6b..0d7950d 100644
--- a/src/solver/fast_simulator.cpp
+++ b/src/solver/fast_simulator.cpp
@@ -74,6 +74,9 @@ void FastSimulator::init(double t0)
     _model.input_cb(t0);
     _model.pre_step(t0);
 
+    // another simulator may have processed the model before
+    _model._mark_unprocessed();
+
     uint num_blocks_added = 0;
     for (;;)
     {
-- 
2.43.0


From 9fa905f647eac2b0120ff4b5fd9514d95a132ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:25 +0000
Subject: [PATCH 18/24] fix: refuse to put a submodel into itself or one of its
 descendants

---
 src/block/block.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/block/block.cpp b/src/block/block.cpp
index 4dfa828..93667dc 100644
--- a/src/block/block.cpp
+++ b/src/block/block.cpp
@@ -39,6 +39,15 @@ bool Block::set_parent(Submodel& parent)
         return false;
     }
 
+    for (const Block* block = &parent; block; block = block->_parent)
+    {
+        if (block == this)
+        {
+            helper::pooya_show_warning(__FILE__, __LINE__, _name.str() + ": a block cannot be its own ancestor!");
+            return false;
+        }
+    }
+
     _parent = &parent;
     parent.link_block(*this);
 
-- 
2.43.0


From ada22587a5709524fab05537f0f9046d0e8fcef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:09 +0000
Subject: [PATCH 19/24] fix: keep bus blocks out of the processing order of the
 fast simulator

---
 src/solver/fast_simulator.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/solver/fast_simulator.cpp b/src/solver/fast_simulator.cpp
index 0d7950d..6f9a08b 100644
--- a/src/solver/fast_simulator.cpp
+++ b/src/solver/fast_simulator.cpp
@@ -48,10 +48,13 @@ void FastSimulator::init(double t0)
 
     _processing_order.clear();
 
+    // another simulator may have processed the model before
+    _model._mark_unprocessed();
+
     uint num_blocks     = 0;
     auto enum_blocks_cb = [&](Block& c, uint32_t /*level*/) -> bool
     {
-        if (dynamic_cast<Leaf*>(&c)) num_blocks++;
+        if (dynamic_cast<Leaf*>(&c) && !c.processed()) num_blocks++;
         return true;
     };
     _model.visit(enum_blocks_cb, 0);
@@ -62,7 +65,7 @@ void FastSimulator::init(double t0)
 
     auto add_blocks_cb = [&po](Block& c, uint32_t /*level*/) -> bool
     {
-        if (auto* p = dynamic_cast<Leaf*>(&c)) po.push_back(p);
+        if (auto* p = dynamic_cast<Leaf*>(&c); p && !p->processed()) po.push_back(p);
         return true;
     };
     _model.visit(add_blocks_cb, 0);
@@ -74,9 +77,6 @@ void FastSimulator::init(double t0)
     _model.input_cb(t0);
     _model.pre_step(t0);
 
-    // another simulator may have processed the model before
-    _model._mark_unprocessed();
-
     uint num_blocks_added = 0;
     for (;;)
     {
-- 
2.43.0


From 912a38e9650071a339b226558a57f96dee1c6295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:12 +0000
Subject: [PATCH 20/24] fix: let the reused processing order cope with bus
 blocks

---
 src/solver/simulator.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/solver/simulator.cpp b/src/solver/simulator.cpp
index 632e11b..0629a03 100644
--- a/src/solver/simulator.cpp
+++ b/src/solver/simulator.cpp
@@ -46,6 +46,15 @@ void Simulator::process_model(double t, bool call_pre_step, bool call_post_step)
     {
         _new_po->clear();
 
+        // some blocks (such as bus blocks) need no processing
+        for (auto* base : *_current_po)
+        {
+            if (base->processed())
+            {
+                _new_po->emplace_back(base);
+            }
+        }
+
         bool any_processed;
         do
         {
-- 
2.43.0


From 22d25f3d4536fc02fe8fbdef1449d07541a64126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:45 +0000
Subject: [PATCH 21/24] fix: stay at the last completed step if a later step of
 the run fails

---
 src/solver/simulator_base.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/solver/simulator_base.cpp b/src/solver/simulator_base.cpp
index c31e9c4..81e878b 100644
--- a/src/solver/simulator_base.cpp
+++ b/src/solver/simulator_base.cpp
@@ -227,6 +227,9 @@ void SimulatorBase::run(double t, double min_time_step, double max_time_step)
                     {
                         reset_with_state_variables(_state_variables);
                         process_model(t1, false, true);
+
+                        // the simulation is at t1 from now on, even if one of the next steps fails
+                        _t_prev = t1;
                     }
                 }
                 else
-- 
2.43.0


From 68eddcf705fd3c5fd530499cc1a3c6908db474bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:45 +0000
Subject: [PATCH 22/24] fix: do not count a failed initialization as one

---
 src/solver/fast_simulator.cpp | 5 +++++
 src/solver/simulator.cpp      | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/solver/fast_simulator.cpp b/src/solver/fast_simulator.cpp
index 6f9a08b..519484b 100644
--- a/src/solver/fast_simulator.cpp
+++ b/src/solver/fast_simulator.cpp
@@ -46,6 +46,9 @@ void FastSimulator::init(double t0)
 
     SimulatorBase::init(t0);
 
+    // an initialization that fails does not count
+    _initialized = false;
+
     _processing_order.clear();
 
     // another simulator may have processed the model before
@@ -119,6 +122,8 @@ void FastSimulator::init(double t0)
 
     // the model is fully processed for t0 at this point
     _model.post_step(t0);
+
+    _initialized = true;
 }
 
 } // namespace pooya
diff --git a/src/solver/simulator.cpp b/src/solver/simulator.cpp
index 0629a03..dbe8604 100644
--- a/src/solver/simulator.cpp
+++ b/src/solver/simulator.cpp
@@ -135,6 +135,9 @@ void Simulator::init(double t0)
 
     SimulatorBase::init(t0);
 
+    // an initialization that fails does not count
+    _initialized = false;
+
     if (_reuse_order)
     {
         _processing_order1.clear();
@@ -163,6 +166,8 @@ void Simulator::init(double t0)
     }
 
     process_model(t0, true, true);
+
+    _initialized = true;
 }
 
 } // namespace pooya
-- 
2.43.0


From 762d608ada760d797992458c017f41c0ff2eefec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:25 +0000
Subject: [PATCH 23/24] fix: let functions of (SI)SO function blocks return
 arrays by value

---
 src/block/extra/siso_function.hpp | 2 +-
 src/block/extra/so_function.hpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/block/extra/siso_function.hpp b/src/block/extra/siso_function.hpp
index 6087440..ea34560 100644
--- a/src/block/extra/siso_function.hpp
+++ b/src/block/extra/siso_function.hpp
@@ -33,7 +33,7 @@ class SISOFunctionT : public SingleInputOutputT<T>
 {
 public:
     using Base        = SingleInputOutputT<T>;
-    using ActFunction = std::function<typename Types<T>::SetValue(double, typename Types<T>::GetValue)>;
+    using ActFunction = std::function<T(double, typename Types<T>::GetValue)>;
 
     explicit SISOFunctionT(ActFunction act_func, Submodel* parent = nullptr, std::string_view name = "")
         : Base(parent, name, 1), _act_func(act_func)
diff --git a/src/block/extra/so_function.hpp b/src/block/extra/so_function.hpp
index 8179405..ae209ea 100644
--- a/src/block/extra/so_function.hpp
+++ b/src/block/extra/so_function.hpp
@@ -33,7 +33,7 @@ class SOFunctionT : public SingleOutputT<T>
 {
 public:
     using Base        = SingleOutputT<T>;
-    using ActFunction = std::function<typename Types<T>::SetValue(double, const pooya::Bus& ibus)>;
+    using ActFunction = std::function<T(double, const pooya::Bus& ibus)>;
 
     explicit SOFunctionT(ActFunction act_func, Submodel* parent = nullptr, std::string_view name = "",
                          uint16_t num_iports = Block::NoIOLimit)
-- 
2.43.0


From 9476d41ea571d85c4a6852227b2db84c29d410a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:25 +0000
Subject: [PATCH 24/24] fix: do not keep a derivative that is refused

---
 src/signal/float_signal.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/signal/float_signal.hpp b/src/signal/float_signal.hpp
index 33f9e62..fcd79d1 100644
--- a/src/signal/float_signal.hpp
+++ b/src/signal/float_signal.hpp
@@ -39,8 +39,9 @@ public:
     void set_deriv_signal(const Signal& deriv_sig)
     {
         Signal::fail_if_invalid_signal_type<T>(&deriv_sig.impl());
-        _deriv_sig = std::static_pointer_cast<typename Types<T>::SignalImpl>(deriv_sig->shared_from_this());
-        pooya_verify(_size == _deriv_sig->size(), name().str() + ", " + deriv_sig->name().str() + ": size mismatch!");
+        auto ptr = std::static_pointer_cast<typename Types<T>::SignalImpl>(deriv_sig->shared_from_this());
+        pooya_verify(_size == ptr->size(), name().str() + ", " + deriv_sig->name().str() + ": size mismatch!");
+        _deriv_sig = std::move(ptr);
     }
 
     typename Types<T>::SignalImpl* deriv_signal() const { return _deriv_sig.get(); }
-- 
2.43.0

