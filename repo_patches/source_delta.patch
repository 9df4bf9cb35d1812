From 8d10220f69c805974c3b1cd72dcdfb7b7f9bd1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:51 +0000
Subject: [PATCH 01/42] fix: keep colliding hash table entries findable after a
 removal

---
 src/vm/objects/hash_table.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vm/objects/hash_table.cpp b/src/vm/objects/hash_table.cpp
index 25da8e6..95e097e 100644
--- a/src/vm/objects/hash_table.cpp
+++ b/src/vm/objects/hash_table.cpp
@@ -466,6 +466,8 @@ void HashTable::remove_from_index(Layout* data, size_t erased_bucket) {
                 "Backshift invariant: distance does not get worse.");
             indices[erased_bucket] = index;
             indices[current_bucket] = ST::empty_value;
+            erased_bucket = current_bucket;
+            current_bucket = next_bucket(data, current_bucket);
         } else {
             break;
         }
-- 
2.43.0


From c71c32dbb40c6b19a3a56ec0f78f7e2cbabd756a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:51 +0000
Subject: [PATCH 02/42] fix: consistent number equality, hashing and ordering;
 checked unary minus; (-1) ** negative

- equal values of type Integer and Float have equal hashes
- no out of range float to integer conversion
- comparisons with NaN are false, integers and floats are compared exactly
- unary minus rejects only the smallest integer
- (-1) raised to an even negative power is 1
---
 src/common/number_compare.hpp      | 56 ++++++++++++++++++++++++++++++
 src/compiler/ir_gen/const_eval.cpp | 43 +++++++++--------------
 src/vm/interpreter.cpp             |  8 +++--
 src/vm/math.cpp                    | 36 +++++++++----------
 src/vm/math.hpp                    |  5 ++-
 src/vm/objects/value.cpp           | 16 ++++-----
 6 files changed, 106 insertions(+), 58 deletions(-)
 create mode 100644 src/common/number_compare.hpp

diff --git a/src/common/number_compare.hpp b/src/common/number_compare.hpp
new file mode 100644
index 0000000..2990acb
--- /dev/null
+++ b/src/common/number_compare.hpp
@@ -0,0 +1,56 @@
+#ifndef TIRO_COMMON_NUMBER_COMPARE_HPP
+#define TIRO_COMMON_NUMBER_COMPARE_HPP
+
+#include "common/defs.hpp"
+
+#include <cmath>
+#include <optional>
+
+namespace tiro {
+
+/// Returns true if the given float has an integral value that is representable as an i64.
+inline bool is_exact_int(f64 value) {
+    // -2^63 is representable exactly as a float, 2^63 - 1 is not.
+    return value >= -9223372036854775808.0 && value < 9223372036854775808.0
+           && value == std::trunc(value);
+}
+
+/// Compares two numbers by their mathematical value (without rounding when integers are compared to floats).
+/// Returns a value smaller than, equal to, or greater than 0, or an empty optional if the values
+/// are not ordered (i.e. NaN).
+inline std::optional<int> compare_numbers(i64 lhs, i64 rhs) {
+    return lhs < rhs ? -1 : (lhs > rhs ? 1 : 0);
+}
+
+inline std::optional<int> compare_numbers(f64 lhs, f64 rhs) {
+    if (std::isnan(lhs) || std::isnan(rhs))
+        return {};
+    return lhs < rhs ? -1 : (lhs > rhs ? 1 : 0);
+}
+
+inline std::optional<int> compare_numbers(i64 lhs, f64 rhs) {
+    if (std::isnan(rhs))
+        return {};
+    if (rhs >= 9223372036854775808.0)
+        return -1;
+    if (rhs < -9223372036854775808.0)
+        return 1;
+
+    // The integral part is in range now.
+    const f64 integral = std::trunc(rhs);
+    const i64 rhs_int = static_cast<i64>(integral);
+    if (lhs != rhs_int)
+        return lhs < rhs_int ? -1 : 1;
+    return integral < rhs ? -1 : (integral > rhs ? 1 : 0);
+}
+
+inline std::optional<int> compare_numbers(f64 lhs, i64 rhs) {
+    auto result = compare_numbers(rhs, lhs);
+    if (result)
+        return -*result;
+    return {};
+}
+
+} // namespace tiro
+
+#endif // TIRO_COMMON_NUMBER_COMPARE_HPP
diff --git a/src/compiler/ir_gen/const_eval.cpp b/src/compiler/ir_gen/const_eval.cpp
index 0692143..d044f40 100644
--- a/src/compiler/ir_gen/const_eval.cpp
+++ b/src/compiler/ir_gen/const_eval.cpp
@@ -1,5 +1,6 @@
 #include "compiler/ir_gen/const_eval.hpp"
 
+#include "common/number_compare.hpp"
 #include "common/safe_int.hpp"
 
 #include <cmath>
@@ -102,28 +103,15 @@ static i64 to_signed(u64 v) {
     return static_cast<i64>(v - static_cast<u64>(limits::min())) + limits::min();
 }
 
-static bool i64_f64_equal(i64 lhs, f64 rhs) {
-    if (!std::isfinite(rhs))
-        return false;
-
-    // Check whether converting the float to int and back preserves the value.
-    // If that is the case, the two integers can be equal.
-    i64 rhs_int = rhs;
-    f64 rhs_roundtrip = rhs_int;
-    return rhs_roundtrip == rhs && lhs == rhs_int;
-}
-
 static bool is_equal(const Constant& lhs, const Constant& rhs) {
     if (is_integer(lhs) && is_float(rhs))
-        return i64_f64_equal(get_int(lhs), get_float(rhs));
+        return compare_numbers(get_int(lhs), get_float(rhs)) == 0;
 
     if (is_float(lhs) && is_integer(rhs))
-        return i64_f64_equal(get_int(rhs), get_float(lhs));
+        return compare_numbers(get_float(lhs), get_int(rhs)) == 0;
 
-    if (is_float(lhs) && is_float(rhs)) {
-        if (std::isnan(get_float(lhs)) && std::isnan(get_float(rhs)))
-            return false;
-    }
+    if (is_float(lhs) && is_float(rhs))
+        return get_float(lhs) == get_float(rhs);
 
     return lhs == rhs;
 }
@@ -229,7 +217,7 @@ static EvalResult eval_power(const Constant& lhs, const Constant& rhs) {
         if (a == 0 && b < 0)
             return EvalResult::make_divide_by_zero();
         if (b < 0)
-            return make_int(a == 1 || a == -1 ? a : 0);
+            return make_int(a == 1 ? 1 : (a == -1 ? (b % 2 == 0 ? 1 : -1) : 0));
 
         // https://stackoverflow.com/a/101613
         SafeInt base = a;
@@ -304,16 +292,17 @@ static EvalResult numeric_compare(const Constant& lhs, const Constant& rhs, Test
     if (!is_numeric(lhs) || !is_numeric(rhs))
         return EvalResult::make_type_error();
 
-    // Equality is special (do not contradict operators == and !=).
-    if (is_equal(lhs, rhs)) {
-        return make_bool(test(0));
+    // Compares the exact values (does not contradict operators == and !=).
+    // Values that are not ordered (NaN) are neither less, greater nor equal to anything.
+    std::optional<int> order;
+    if (is_integer(lhs)) {
+        order = is_integer(rhs) ? compare_numbers(get_int(lhs), get_int(rhs))
+                                : compare_numbers(get_int(lhs), get_float(rhs));
+    } else {
+        order = is_integer(rhs) ? compare_numbers(get_float(lhs), get_int(rhs))
+                                : compare_numbers(get_float(lhs), get_float(rhs));
     }
-
-    // Apply normal int / float promotion rules.
-    auto op = [&](auto a, auto b) -> EvalResult {
-        return make_bool(test(a < b ? -1 : (a > b ? 1 : 0)));
-    };
-    return numeric_op(lhs, rhs, op, op);
+    return make_bool(order && test(*order));
 }
 
 static EvalResult eval_less(const Constant& lhs, const Constant& rhs) {
diff --git a/src/vm/interpreter.cpp b/src/vm/interpreter.cpp
index 1c3a9c4..c8759bf 100644
--- a/src/vm/interpreter.cpp
+++ b/src/vm/interpreter.cpp
@@ -212,8 +212,12 @@ BytecodeInterpreter::BytecodeInterpreter(
         if (result.has_exception())            \
             return unwind(result.exception()); \
                                                \
-        auto cmp = result.value();             \
-        target.set(ctx_.get_boolean((expr)));  \
+        bool holds = false;                    \
+        if (auto order = result.value()) {     \
+            const int cmp = *order;            \
+            holds = (expr);                    \
+        }                                      \
+        target.set(ctx_.get_boolean(holds));   \
     } while (0)
 
 void BytecodeInterpreter::run() {
diff --git a/src/vm/math.cpp b/src/vm/math.cpp
index aff551b..8ad3d69 100644
--- a/src/vm/math.cpp
+++ b/src/vm/math.cpp
@@ -1,5 +1,6 @@
 #include "vm/math.hpp"
 
+#include "common/number_compare.hpp"
 #include "vm/context.hpp"
 #include "vm/objects/exception.hpp"
 #include "vm/objects/primitives.hpp"
@@ -84,7 +85,7 @@ struct pow_op {
             return TIRO_FORMAT_EXCEPTION(ctx, "cannot raise integer 0 to a negative power");
 
         if (b < 0)
-            return a == 1 || a == -1 ? a : 0;
+            return a == 1 ? 1 : (a == -1 ? (b % 2 == 0 ? 1 : -1) : 0);
 
         // https://stackoverflow.com/a/101613
         i64 result = 1;
@@ -181,7 +182,7 @@ Fallible<Number> unary_minus(Context& ctx, Handle<Value> v) {
 
     if (v->is<Integer>()) {
         i64 iv = v.must_cast<Integer>()->value();
-        if (TIRO_UNLIKELY(iv == -1))
+        if (TIRO_UNLIKELY(iv == std::numeric_limits<i64>::min()))
             return TIRO_FORMAT_EXCEPTION(ctx, "integer overflow in unary minus");
         return static_cast<Number>(ctx.get_integer(-iv));
     }
@@ -212,30 +213,27 @@ static void unwrap_number(Value v, Callback&& cb) {
     }
 };
 
-Fallible<int> compare(Context& ctx, Handle<Value> a, Handle<Value> b) {
+Fallible<std::optional<int>> compare(Context& ctx, Handle<Value> a, Handle<Value> b) {
     if (a->is_null()) {
         if (b->is_null())
-            return 0;
-        return -1;
+            return std::optional<int>(0);
+        return std::optional<int>(-1);
     }
     if (b->is_null())
-        return 1;
-
-    auto cmp = [](auto lhs, auto rhs) {
-        if (lhs > rhs)
-            return 1;
-        if (lhs < rhs)
-            return -1;
-        return 0;
-    };
+        return std::optional<int>(1);
 
+    bool defined = false;
     std::optional<int> result;
-    unwrap_number(
-        *a, [&](auto lhs) { unwrap_number(*b, [&](auto rhs) { result = cmp(lhs, rhs); }); });
-
-    if (TIRO_UNLIKELY(!result))
+    unwrap_number(*a, [&](auto lhs) {
+        unwrap_number(*b, [&](auto rhs) {
+            defined = true;
+            result = compare_numbers(lhs, rhs);
+        });
+    });
+
+    if (TIRO_UNLIKELY(!defined))
         return comparison_not_defined_exception(ctx, a, b);
-    return *result;
+    return result;
 }
 
 } // namespace tiro::vm
diff --git a/src/vm/math.hpp b/src/vm/math.hpp
index 0b87caf..81b2505 100644
--- a/src/vm/math.hpp
+++ b/src/vm/math.hpp
@@ -4,6 +4,8 @@
 #include "common/defs.hpp"
 #include "vm/fwd.hpp"
 
+#include <optional>
+
 namespace tiro::vm {
 
 // Implements the binary arithmetic operations.
@@ -25,7 +27,8 @@ Fallible<Integer> bitwise_not(Context& ctx, Handle<Value> v);
 //  - < 0 iff a < b
 //  - = 0 iff a == b
 //  - > 0 iff a > b
-Fallible<int> compare(Context& ctx, Handle<Value> a, Handle<Value> b);
+/// Returns an empty optional if the values are not ordered (i.e. NaN).
+Fallible<std::optional<int>> compare(Context& ctx, Handle<Value> a, Handle<Value> b);
 
 } // namespace tiro::vm
 
diff --git a/src/vm/objects/value.cpp b/src/vm/objects/value.cpp
index f955c6b..4cb8fcd 100644
--- a/src/vm/objects/value.cpp
+++ b/src/vm/objects/value.cpp
@@ -1,5 +1,6 @@
 #include "vm/objects/value.hpp"
 
+#include "common/number_compare.hpp"
 #include "vm/hash.hpp"
 #include "vm/objects/all.hpp"
 
@@ -144,7 +145,11 @@ size_t hash(Value v) {
     case ValueType::HeapInteger:
         return integer_hash(static_cast<u64>(HeapInteger(v).value()));
     case ValueType::Float:
-        return float_hash(Float(v).value());
+        // Must be consistent with equal(): integral floats are equal to the matching integers.
+        if (f64 value = Float(v).value(); is_exact_int(value))
+            return integer_hash(static_cast<u64>(static_cast<i64>(value)));
+        else
+            return float_hash(value);
     case ValueType::SmallInteger:
         return integer_hash(static_cast<u64>(SmallInteger(v).value()));
     case ValueType::String:
@@ -203,14 +208,7 @@ size_t hash(Value v) {
 }
 
 static bool int_float_equal(i64 lhs, f64 rhs) {
-    if (!std::isfinite(rhs))
-        return false;
-
-    // Check whether converting the float to int and back preserves the value.
-    // If that is the case, the two integers can be equal.
-    i64 rhs_int = rhs;
-    f64 rhs_roundtrip = rhs_int;
-    return rhs_roundtrip == rhs && lhs == rhs_int;
+    return compare_numbers(lhs, rhs) == 0;
 }
 
 // TODO think about float / integer equality.
-- 
2.43.0


From 983228d861cb46f3761581758f1116ad40949b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:18 +0000
Subject: [PATCH 03/42] fix: make closure environments available in exception
 handlers

A function that uses a captured variable inside a 'defer' expression failed to compile with an
internal error, because the instruction that creates the environment does not dominate the
exception handler block.
---
 src/compiler/ir_gen/compile_stmt.cpp |  5 ++---
 src/compiler/ir_gen/func.cpp         | 20 +++++++++++++++++++-
 src/compiler/ir_gen/func.hpp         |  8 ++++++++
 3 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/compiler/ir_gen/compile_stmt.cpp b/src/compiler/ir_gen/compile_stmt.cpp
index dd2b473..702c7d4 100644
--- a/src/compiler/ir_gen/compile_stmt.cpp
+++ b/src/compiler/ir_gen/compile_stmt.cpp
@@ -83,14 +83,13 @@ OkResult StmtCompiler::visit_defer_stmt(NotNull<AstDeferStmt*> stmt, CurrentBloc
     // point to that handler (handler edge), until the scope exit or until another defer statement is encountered.
     // NOTE: the new handler block inherits the current exception handler from the ctx.
     auto handler_block = ctx().make_handler_block(strings().insert("defer-panic"));
-    [&] {
-        CurrentBlock nested = ctx().make_current(handler_block);
+    ctx().compile_handler(handler_block, [&](CurrentBlock& nested) {
         auto expr_result = nested.compile_expr(expr, ExprOptions::MaybeInvalid);
         if (!expr_result)
             return;
 
         nested.end(Terminator::make_rethrow(ctx().result().exit()));
-    }();
+    });
 
     // Normal control flow: the expression is remembered and compiled by the scope exit (ExprCompiler::visit_block_expr).
     {
diff --git a/src/compiler/ir_gen/func.cpp b/src/compiler/ir_gen/func.cpp
index a5d12c8..9da8644 100644
--- a/src/compiler/ir_gen/func.cpp
+++ b/src/compiler/ir_gen/func.cpp
@@ -663,8 +663,9 @@ void FunctionIRGen::enter_env(ScopeId parent_scope_id, CurrentBlock& bb) {
     const auto parent_inst = parent ? get_env(parent) : bb.compile_value(Constant::make_null());
     const auto env_inst = bb.compile_value(
         Value::make_make_environment(parent_inst, captured_count));
-    local_env_stack_.push_back({env, parent_scope_id});
+    local_env_stack_.push_back({env, parent_scope_id, captured[0]});
     local_env_locations_[env] = env_inst;
+    define_new(Value::make_publish_assign(captured[0], env_inst), bb.id());
 }
 
 void FunctionIRGen::exit_env(ScopeId parent_scope) {
@@ -678,6 +679,23 @@ void FunctionIRGen::exit_env(ScopeId parent_scope) {
     local_env_locations_.erase(env);
 }
 
+void FunctionIRGen::compile_handler(
+    BlockId handler, FunctionRef<void(CurrentBlock& bb)> compile_body) {
+    auto original_locations = local_env_locations_;
+    ScopeExit restore_locations = [&] { local_env_locations_ = std::move(original_locations); };
+
+    // The instructions that define the active closure environments do not dominate the handler block.
+    if (outer_env_)
+        local_env_locations_[outer_env_] = define_new(Value::OuterEnvironment{}, handler);
+    for (const auto& context : local_env_stack_) {
+        local_env_locations_[context.env] = define_new(
+            Value::make_observe_assign(context.key, {}), handler);
+    }
+
+    CurrentBlock nested = make_current(handler);
+    compile_body(nested);
+}
+
 bool FunctionIRGen::can_open_closure_env(ScopeId scope_id) const {
     const auto& scope = symbols()[scope_id];
 
diff --git a/src/compiler/ir_gen/func.hpp b/src/compiler/ir_gen/func.hpp
index c45a9a3..1b62543 100644
--- a/src/compiler/ir_gen/func.hpp
+++ b/src/compiler/ir_gen/func.hpp
@@ -108,6 +108,10 @@ private:
 struct EnvContext {
     ClosureEnvId env;
     ScopeId starter;
+
+    // Identifies the environment when exception handlers must access it (any symbol captured by the
+    // environment; captured symbols are never published for themselves).
+    SymbolId key;
 };
 
 /// Compilation options for expressions.
@@ -226,6 +230,10 @@ public:
     /// Creates a new handler block.
     BlockId make_handler_block(InternedString label);
 
+    // Compiles the contents of an exception handler block. Active closure environments are made available
+    // to the code in the handler.
+    void compile_handler(BlockId handler, FunctionRef<void(CurrentBlock& bb)> compile_body);
+
 private:
     void enter_compilation(FunctionRef<void(CurrentBlock& bb)> compile_body);
 
-- 
2.43.0


From 9c83a3ccee6c5a7beeace8cad1903fce10896f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:32 +0000
Subject: [PATCH 04/42] fix: debug_repr() of strings that are not valid utf8

Strings are sequences of bytes (iterating over a string yields single bytes), debug_repr() raised an
internal error for strings with invalid utf8 sequences. Show such bytes using hex escapes.
---
 src/vm/builtins/dump.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/vm/builtins/dump.cpp b/src/vm/builtins/dump.cpp
index 7c79999..5d36c2e 100644
--- a/src/vm/builtins/dump.cpp
+++ b/src/vm/builtins/dump.cpp
@@ -97,8 +97,19 @@ struct EscapedString {
 
     void format(FormatStream& stream) const {
         stream.format("\"");
-        for (auto cp : CodePointRange(str)) {
-            format_escaped(cp, stream);
+        for (auto rest = str; !rest.empty();) {
+            const auto validation = validate_utf8(rest);
+            const auto valid = validation.ok ? rest : rest.substr(0, validation.error_offset);
+            for (auto cp : CodePointRange(valid)) {
+                format_escaped(cp, stream);
+            }
+            rest.remove_prefix(valid.size());
+
+            // Strings are just bytes and do not have to be valid utf8.
+            if (!rest.empty()) {
+                stream.format("\\x{:02X}", static_cast<u8>(rest.front()));
+                rest.remove_prefix(1);
+            }
         }
         stream.format("\"");
     }
-- 
2.43.0


From 3682a9f47f3828cd2b32a738ae7ceb23f8ab9d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:47 +0000
Subject: [PATCH 05/42] fix: compile closures in deferred expressions more than
 once

Deferred expressions are compiled for the exception handler and again for every scope exit. Captured
variables declared in such an expression have one location for every compiled copy.
---
 src/compiler/ir_gen/closures.cpp | 21 +++++++++++++--------
 src/compiler/ir_gen/closures.hpp | 11 +++++++----
 src/compiler/ir_gen/func.cpp     |  2 +-
 3 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/compiler/ir_gen/closures.cpp b/src/compiler/ir_gen/closures.cpp
index a576798..7d9e3eb 100644
--- a/src/compiler/ir_gen/closures.cpp
+++ b/src/compiler/ir_gen/closures.cpp
@@ -21,19 +21,23 @@ ClosureEnvId ClosureEnvCollection::make(const ClosureEnv& env) {
 }
 
 void ClosureEnvCollection::write_location(SymbolId symbol, const ClosureEnvLocation& loc) {
-    TIRO_DEBUG_ASSERT(
-        locs_.find(symbol) == locs_.end(), "Symbol is already associated with a location.");
+    TIRO_DEBUG_ASSERT(locs_.find(std::tuple(symbol, loc.env)) == locs_.end(),
+        "Symbol is already associated with a location in that environment.");
     TIRO_DEBUG_ASSERT(loc.env, "The location must have a valid environment id.");
     TIRO_DEBUG_ASSERT((*this)[loc.env].size() > loc.index,
         "The location's index is out of bounds for "
         "the given environment.");
 
-    locs_.emplace(symbol, loc);
+    locs_.emplace(std::tuple(symbol, loc.env), loc);
 }
 
-std::optional<ClosureEnvLocation> ClosureEnvCollection::read_location(SymbolId symbol) const {
-    if (auto pos = locs_.find(symbol); pos != locs_.end())
-        return pos->second;
+std::optional<ClosureEnvLocation>
+ClosureEnvCollection::read_location(SymbolId symbol, ClosureEnvId env) const {
+    while (env) {
+        if (auto pos = locs_.find(std::tuple(symbol, env)); pos != locs_.end())
+            return pos->second;
+        env = (*this)[env].parent();
+    }
     return {};
 }
 
@@ -66,8 +70,9 @@ void dump_envs(const ClosureEnvCollection& envs, const SymbolTable& symbols,
     {
         stream.format("  Locations:\n");
         for (const auto& loc : envs.locations()) {
-            auto symbol = symbols[loc.first];
-            stream.format("    {}@{} -> {}\n", strings.dump(symbol.name()), loc.first, loc.second);
+            auto symbol_id = std::get<SymbolId>(loc.first);
+            auto symbol = symbols[symbol_id];
+            stream.format("    {}@{} -> {}\n", strings.dump(symbol.name()), symbol_id, loc.second);
         }
     }
 }
diff --git a/src/compiler/ir_gen/closures.hpp b/src/compiler/ir_gen/closures.hpp
index 3ae4986..fefdbf7 100644
--- a/src/compiler/ir_gen/closures.hpp
+++ b/src/compiler/ir_gen/closures.hpp
@@ -71,12 +71,15 @@ public:
     ClosureEnvId make(const ClosureEnv& env);
 
     /// Associates the given symbol with its location within the closure env collection.
-    /// \pre `symbol` has not been inserted already.
+    /// A symbol can have multiple locations (in different environments) if the code that declares
+    /// it is compiled more than once, which is the case for deferred expressions.
+    /// \pre `symbol` has not been inserted already for that environment.
     /// \pre The location must be valid.
     void write_location(SymbolId symbol, const ClosureEnvLocation& loc);
 
-    /// Returns the location of the given symbol (previously registered via write_location()).
-    std::optional<ClosureEnvLocation> read_location(SymbolId symbol) const;
+    /// Returns the location of the given symbol (previously registered via write_location()) that is visible
+    /// from the given environment, i.e. the one in the closest parent (including the environment itself).
+    std::optional<ClosureEnvLocation> read_location(SymbolId symbol, ClosureEnvId env) const;
 
     auto environments() const { return IterRange(envs_.begin(), envs_.end()); }
     size_t environment_count() const { return envs_.size(); }
@@ -91,7 +94,7 @@ private:
 
 private:
     EntityStorage<ClosureEnv, ClosureEnvId> envs_;
-    absl::flat_hash_map<SymbolId, ClosureEnvLocation, UseHasher> locs_;
+    absl::flat_hash_map<std::tuple<SymbolId, ClosureEnvId>, ClosureEnvLocation, UseHasher> locs_;
 };
 
 void dump_envs(const ClosureEnvCollection& envs, const SymbolTable& symbols,
diff --git a/src/compiler/ir_gen/func.cpp b/src/compiler/ir_gen/func.cpp
index 9da8644..56e3c39 100644
--- a/src/compiler/ir_gen/func.cpp
+++ b/src/compiler/ir_gen/func.cpp
@@ -729,7 +729,7 @@ std::optional<LValue> FunctionIRGen::find_lvalue(SymbolId symbol_id) {
         return LValue::make_module(member);
     }
     if (const auto& symbol = symbols()[symbol_id]; symbol.captured()) {
-        auto pos = envs_->read_location(symbol_id);
+        auto pos = envs_->read_location(symbol_id, current_env());
         TIRO_DEBUG_ASSERT(pos, "Captured symbol without a defined location used as lvalue.");
         return get_captured_lvalue(*pos);
     }
-- 
2.43.0


From b80bb47f0932a5bf2694107188e1a593508f9a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:50 +0000
Subject: [PATCH 06/42] fix: do not use references into a map that may be
 rehashed when sealing a block

---
 src/compiler/ir_gen/func.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/compiler/ir_gen/func.cpp b/src/compiler/ir_gen/func.cpp
index 56e3c39..cbea32a 100644
--- a/src/compiler/ir_gen/func.cpp
+++ b/src/compiler/ir_gen/func.cpp
@@ -459,12 +459,13 @@ void FunctionIRGen::seal(BlockId block_id) {
     // Patch incomplete phis. See [BB+13], Section 2.3.
     if (auto pos = incomplete_phis_.find(block_id); pos != incomplete_phis_.end()) {
 
-        auto& phis = pos->second;
+        // Patching a phi may register incomplete phis in other blocks, which invalidates references into the map.
+        auto phis = std::move(pos->second);
+        incomplete_phis_.erase(pos);
+
         for (const auto& [symbol, phi] : phis) {
             add_phi_operands(symbol, phi, block_id);
         }
-
-        incomplete_phis_.erase(pos);
     }
 
     block->sealed(true);
-- 
2.43.0


From c33f9cb674b720dd729314b1b4e9e00969e6d4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:52 +0000
Subject: [PATCH 07/42] fix: function values at module level never have a
 closure environment

The compiler emitted a closure instruction for such functions when the module initializer uses captured
variables. Loading the module then failed with a verification error.
---
 src/compiler/ir_gen/compile_expr.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/compiler/ir_gen/compile_expr.cpp b/src/compiler/ir_gen/compile_expr.cpp
index 9887fe7..65fe9a2 100644
--- a/src/compiler/ir_gen/compile_expr.cpp
+++ b/src/compiler/ir_gen/compile_expr.cpp
@@ -518,7 +518,9 @@ InstResult ExprCompiler::visit_func_expr(NotNull<AstFuncExpr*> expr, CurrentBloc
     auto env = ctx().current_env();
 
     ModuleMemberId func_id = ctx().module_gen().add_function(decl, envs, env);
-    if (env) {
+
+    // Functions at module level never have an environment, even if the module initializer uses one.
+    if (env && !ctx().module_gen().is_static(symbols().get_decl(decl->id()))) {
         auto env_id = bb.compile_env(env);
         return bb.compile_value(Value::make_make_closure(env_id, func_id));
     }
-- 
2.43.0


From 11e42839c6b76066cc7b6791a5d68896b5d591c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:52 +0000
Subject: [PATCH 08/42] fix: compile deferred expressions in the closure
 environment of their scope

A deferred function that reads a captured variable read an unrelated variable if the scope was left
through a return (or break) inside of a loop whose own variables are captured as well.
---
 src/compiler/ir_gen/func.cpp    | 15 ++++++++++++++-
 src/compiler/ir_gen/support.cpp |  5 +++--
 src/compiler/ir_gen/support.hpp |  9 +++++++--
 support/codegen/ir_gen.py       |  5 +++++
 4 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/src/compiler/ir_gen/func.cpp b/src/compiler/ir_gen/func.cpp
index cbea32a..04bcd47 100644
--- a/src/compiler/ir_gen/func.cpp
+++ b/src/compiler/ir_gen/func.cpp
@@ -143,7 +143,8 @@ FunctionIRGen::RegionGuard FunctionIRGen::enter_loop(BlockId jump_break, BlockId
 }
 
 FunctionIRGen::RegionGuard FunctionIRGen::enter_scope() {
-    auto id = active_regions_.push_back(Region::make_scope(current_handler(), 0, {}));
+    auto id = active_regions_.push_back(
+        Region::make_scope(current_handler(), checked_cast<u32>(local_env_stack_.size()), 0, {}));
     return RegionGuard(this, id, current_scope_);
 }
 
@@ -356,17 +357,29 @@ OkResult FunctionIRGen::compile_scope_exit(RegionId scope_id, CurrentBlock& bb)
 
     u32 initial_processed;
     u32 deferred_count;
+    u32 env_depth;
     BlockId original_handler;
     {
         auto& scope = get_scope();
         initial_processed = scope.processed;
         deferred_count = scope.deferred.size();
+        env_depth = scope.env_depth;
         original_handler = scope.original_handler;
         TIRO_DEBUG_ASSERT(initial_processed <= deferred_count, "Processed count must be <= size.");
     }
     ScopeSuccess restore_processed = [&] { get_scope().processed = initial_processed; };
     ScopeSuccess restore_handler = [&] { current_handler(original_handler); };
 
+    // The deferred expressions must not observe closure environments that were opened in nested loops (which
+    // are being left through break or return): all compiled copies of a deferred expression share their functions.
+    TIRO_DEBUG_ASSERT(env_depth <= local_env_stack_.size(), "Environments must be nested.");
+    const auto env_begin = local_env_stack_.begin() + env_depth;
+    const std::vector<EnvContext> nested_envs(env_begin, local_env_stack_.end());
+    local_env_stack_.erase(env_begin, local_env_stack_.end());
+    ScopeExit restore_envs = [&] {
+        local_env_stack_.insert(local_env_stack_.end(), nested_envs.begin(), nested_envs.end());
+    };
+
     for (u32 i = deferred_count - initial_processed; i-- > 0;) {
         AstExpr* expr = nullptr;
         BlockId handler;
diff --git a/src/compiler/ir_gen/support.cpp b/src/compiler/ir_gen/support.cpp
index a30e390..afa2832 100644
--- a/src/compiler/ir_gen/support.cpp
+++ b/src/compiler/ir_gen/support.cpp
@@ -279,9 +279,10 @@ Region Region::make_loop(const BlockId& jump_break, const BlockId& jump_continue
     return {Loop{jump_break, jump_continue}};
 }
 
-Region Region::make_scope(const BlockId& original_handler, const u32& processed,
+Region Region::make_scope(const BlockId& original_handler, const u32& env_depth,
+    const u32& processed,
     absl::InlinedVector<std::pair<NotNull<AstExpr*>, BlockId>, 3> deferred) {
-    return {Scope{original_handler, processed, std::move(deferred)}};
+    return {Scope{original_handler, env_depth, processed, std::move(deferred)}};
 }
 
 Region::Region(Loop loop)
diff --git a/src/compiler/ir_gen/support.hpp b/src/compiler/ir_gen/support.hpp
index 1d6f473..23f1937 100644
--- a/src/compiler/ir_gen/support.hpp
+++ b/src/compiler/ir_gen/support.hpp
@@ -250,6 +250,9 @@ public:
         /// The original exception handler when this scope was entered.
         BlockId original_handler;
 
+        /// The number of active (local) closure environments when this scope was entered.
+        u32 env_depth;
+
         /// Signals already completed deferred executions to recursive scope exit invocations.
         /// This is important when nested control flow instructions are encountered while
         /// evaluating deferred statements.
@@ -259,15 +262,17 @@ public:
         /// scope exit, e.g. return or break.
         absl::InlinedVector<std::pair<NotNull<AstExpr*>, BlockId>, 3> deferred;
 
-        Scope(const BlockId& original_handler_, const u32& processed_,
+        Scope(const BlockId& original_handler_, const u32& env_depth_, const u32& processed_,
             absl::InlinedVector<std::pair<NotNull<AstExpr*>, BlockId>, 3> deferred_)
             : original_handler(original_handler_)
+            , env_depth(env_depth_)
             , processed(processed_)
             , deferred(std::move(deferred_)) {}
     };
 
     static Region make_loop(const BlockId& jump_break, const BlockId& jump_continue);
-    static Region make_scope(const BlockId& original_handler, const u32& processed,
+    static Region make_scope(const BlockId& original_handler, const u32& env_depth,
+        const u32& processed,
         absl::InlinedVector<std::pair<NotNull<AstExpr*>, BlockId>, 3> deferred);
 
     Region(Loop loop);
diff --git a/support/codegen/ir_gen.py b/support/codegen/ir_gen.py
index 114ba43..4b79c74 100644
--- a/support/codegen/ir_gen.py
+++ b/support/codegen/ir_gen.py
@@ -100,6 +100,11 @@ Region = (
                         "BlockId",
                         doc="The original exception handler when this scope was entered.",
                     ),
+                    Field(
+                        "env_depth",
+                        "u32",
+                        doc="The number of active (local) closure environments when this scope was entered.",
+                    ),
                     Field(
                         "processed",
                         "u32",
-- 
2.43.0


From 36364bb4ace88a8b320f13df49d0f46f8e1b6718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:52 +0000
Subject: [PATCH 09/42] fix: resolve the register size of phi functions that
 reference each other

The recursive search failed for phi functions whose operands are all being visited already, although
the size can be computed from other phi functions of the same cycle.
---
 src/compiler/bytecode_gen/alloc_registers.cpp | 48 +++++++++++--------
 1 file changed, 27 insertions(+), 21 deletions(-)

diff --git a/src/compiler/bytecode_gen/alloc_registers.cpp b/src/compiler/bytecode_gen/alloc_registers.cpp
index 8a9dea7..a1f3267 100644
--- a/src/compiler/bytecode_gen/alloc_registers.cpp
+++ b/src/compiler/bytecode_gen/alloc_registers.cpp
@@ -9,6 +9,8 @@
 #include "compiler/ir_passes/visit.hpp"
 
 #include "absl/container/flat_hash_map.h"
+#include "absl/container/flat_hash_set.h"
+#include "absl/container/inlined_vector.h"
 
 #include <algorithm>
 
@@ -454,35 +456,39 @@ std::optional<u32> RegisterAllocator::allocated_size_recursive(InstId inst_id) {
     case ValueType::GetAggregateMember:
         return 0;
     case ValueType::Phi: {
-        if (auto pos = phi_sizes_.find(inst_id); pos != phi_sizes_.end()) {
-            u32 size = pos->second;
-            if (size != 0)
-                return size;
+        if (auto pos = phi_sizes_.find(inst_id); pos != phi_sizes_.end())
+            return pos->second;
 
-            // size 0 -> recursive call. This breaks the otherwise infinite loop.
-            return {};
-        }
+        // Phi functions can reference each other in cycles, visit all phi functions reachable from this one.
+        std::optional<u32> resolved;
+        absl::flat_hash_set<InstId, UseHasher> seen{inst_id};
+        absl::InlinedVector<InstId, 8> pending{inst_id};
+        while (!pending.empty()) {
+            auto& phi = func_[pending.back()].value().as_phi();
+            pending.pop_back();
 
-        auto& phi = value.as_phi();
+            if (!phi.operands())
+                continue;
 
-        if (!phi.operands())
-            return 0;
+            for (const auto& operand : func_[phi.operands()]) {
+                if (func_[operand].value().type() == ValueType::Phi) {
+                    if (seen.insert(operand).second)
+                        pending.push_back(operand);
+                    continue;
+                }
 
-        const auto& operands = func_[phi.operands()];
-        phi_sizes_[inst_id] = 0;
-        std::optional<u32> resolved;
-        for (size_t i = 0, n = operands.size(); i < n; ++i) {
-            auto arg_size = allocated_size_realized(operands.get(i));
-            if (arg_size) {
-                if (resolved) {
-                    TIRO_DEBUG_ASSERT(*resolved == *arg_size,
-                        "Phi operands must not resolve to different sizes.");
-                } else {
+                const auto arg_size = allocated_size_realized(operand);
+                TIRO_DEBUG_ASSERT(!resolved || !arg_size || *resolved == *arg_size,
+                    "Phi operands must not resolve to different sizes.");
+                if (arg_size)
                     resolved = arg_size;
-                }
             }
         }
 
+        // Phi function without any operands.
+        if (!resolved && !value.as_phi().operands())
+            return 0;
+
         TIRO_DEBUG_ASSERT(resolved, "Register size of phi function could not be resolved.");
         phi_sizes_[inst_id] = *resolved;
         return *resolved;
-- 
2.43.0


From 323ac8c8d409870e09bda251500b30a164a95877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:15 +0000
Subject: [PATCH 10/42] fix: do not eliminate operations on constants that
 panic

The panic of an operation with two constant operands (like 1 / 0 or an integer overflow) was lost if the
result of the operation was not used.
---
 src/compiler/ir_passes/dead_code_elimination.cpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/compiler/ir_passes/dead_code_elimination.cpp b/src/compiler/ir_passes/dead_code_elimination.cpp
index 8ac8c59..dcd3068 100644
--- a/src/compiler/ir_passes/dead_code_elimination.cpp
+++ b/src/compiler/ir_passes/dead_code_elimination.cpp
@@ -55,17 +55,11 @@ static bool has_side_effects(const Value& value, const Function& func) {
 
         bool visit_outer_environment(const Value::OuterEnvironment&) { return false; }
 
-        bool visit_binary_op(const Value::BinaryOp& b) {
-            const auto& lhs = func[b.left];
-            const auto& rhs = func[b.right];
-            return lhs.value().type() != ValueType::Constant
-                   || rhs.value().type() != ValueType::Constant;
-        }
+        // Operations on constants have already been evaluated at compile time, unless they fail at runtime
+        // (for example because of a division by zero).
+        bool visit_binary_op(const Value::BinaryOp&) { return true; }
 
-        bool visit_unary_op(const Value::UnaryOp& u) {
-            const auto& operand = func[u.operand];
-            return operand.value().type() != ValueType::Constant;
-        }
+        bool visit_unary_op(const Value::UnaryOp&) { return true; }
 
         bool visit_call(const Value::Call&) { return true; }
 
-- 
2.43.0


From 7a86a2c8beadfaa49257a2ef8ad8850674c96734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:06 +0000
Subject: [PATCH 11/42] fix: do not merge the constants 0.0 and -0.0

---
 src/compiler/ir_gen/compile_value.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/compiler/ir_gen/compile_value.cpp b/src/compiler/ir_gen/compile_value.cpp
index 69b41fc..6a71c1c 100644
--- a/src/compiler/ir_gen/compile_value.cpp
+++ b/src/compiler/ir_gen/compile_value.cpp
@@ -6,6 +6,7 @@
 
 #include "absl/container/inlined_vector.h"
 
+#include <cmath>
 #include <optional>
 #include <utility>
 
@@ -158,6 +159,13 @@ InstId ValueCompiler::visit_observe_assign(const Value::ObserveAssign& obs) {
 }
 
 InstId ValueCompiler::visit_constant(const Constant& constant) {
+    // Positive and negative zero compare equal but must not be merged.
+    if (constant.type() == ConstantType::Float) {
+        const f64 value = constant.as_float().value;
+        if (value == 0 && std::signbit(value))
+            return define_new(constant);
+    }
+
     const auto key = ComputedValue::make_constant(constant);
     return memoize_value(key, [&]() { return define_new(constant); });
 }
-- 
2.43.0


From 4b299dbab615d1cf71c352f728540048273ef2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:01 +0000
Subject: [PATCH 12/42] fix: keep the exception handler of a scope after an
 early exit from it

---
 src/compiler/ir_gen/compile_expr.cpp | 7 +++++++
 src/compiler/ir_gen/func.cpp         | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/src/compiler/ir_gen/compile_expr.cpp b/src/compiler/ir_gen/compile_expr.cpp
index 65fe9a2..956da47 100644
--- a/src/compiler/ir_gen/compile_expr.cpp
+++ b/src/compiler/ir_gen/compile_expr.cpp
@@ -1,6 +1,7 @@
 #include "compiler/ir_gen/compile.hpp"
 
 #include "common/fix.hpp"
+#include "common/scope_guards.hpp"
 #include "compiler/ast/ast.hpp"
 #include "compiler/ir/function.hpp"
 #include "compiler/ir_gen/func.hpp"
@@ -426,6 +427,12 @@ InstResult ExprCompiler::visit_block_expr(NotNull<AstBlockExpr*> expr, CurrentBl
     auto scope = ctx().enter_scope();
     auto scope_id = ctx().current_scope_id(); // TODO Awkward api
 
+    // Handlers registered by deferred expressions must not be visible outside the scope, even if the
+    // end of the scope is unreachable.
+    ScopeExit restore_handler = [this, handler = ctx().current_handler()] {
+        ctx().current_handler(handler);
+    };
+
     auto& stmts = expr->stmts();
 
     bool has_value = can_use_as_value(get_type(expr));
diff --git a/src/compiler/ir_gen/func.cpp b/src/compiler/ir_gen/func.cpp
index 04bcd47..1a296a4 100644
--- a/src/compiler/ir_gen/func.cpp
+++ b/src/compiler/ir_gen/func.cpp
@@ -408,6 +408,9 @@ OkResult FunctionIRGen::compile_scope_exit(RegionId scope_id, CurrentBlock& bb)
 OkResult FunctionIRGen::compile_scope_exit_until(RegionId target, CurrentBlock& bb) {
     TIRO_DEBUG_ASSERT(!target || target.value() < active_regions_.size(), "Invalid target index.");
 
+    // The code following the early exit is still part of the current scope (with its handler).
+    ScopeExit restore_handler = [this, handler = current_handler()] { current_handler(handler); };
+
     // inclusive index:
     const size_t until = target ? target.value() + 1 : 0;
     for (size_t i = active_regions_.size(); i-- > until;) {
-- 
2.43.0


From 01bfce87c151188e68f8e363e15b24b358ea4a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:21 +0000
Subject: [PATCH 13/42] fix: let exception handlers observe all visible
 assignments in control flow loops

---
 .../ir_passes/assignment_observers.cpp        | 199 +++++++-----------
 1 file changed, 75 insertions(+), 124 deletions(-)

diff --git a/src/compiler/ir_passes/assignment_observers.cpp b/src/compiler/ir_passes/assignment_observers.cpp
index 4967ec1..184554f 100644
--- a/src/compiler/ir_passes/assignment_observers.cpp
+++ b/src/compiler/ir_passes/assignment_observers.cpp
@@ -5,15 +5,27 @@
 
 #include "absl/container/flat_hash_map.h"
 #include "absl/container/flat_hash_set.h"
-#include "absl/container/inlined_vector.h"
+
+#include <vector>
 
 namespace tiro::ir {
 
 namespace {
 
-using ValueSet = absl::flat_hash_set<InstId, UseHasher>;
+// Unique values in order of their discovery.
+class ValueSet final {
+public:
+    void insert(InstId id) {
+        if (set_.insert(id).second)
+            list_.push_back(id);
+    }
 
-using ValueList = absl::InlinedVector<InstId, 3>;
+    const std::vector<InstId>& items() const { return list_; }
+
+private:
+    absl::flat_hash_set<InstId, UseHasher> set_;
+    std::vector<InstId> list_;
+};
 
 class Pass {
 public:
@@ -31,28 +43,17 @@ private:
     // in the exception handler's observe_assign instructions.
     void link_instructions();
 
-    // Gathers all assignments for that block + symbol combination.
-    void fill_operand_set(ValueSet& operands, BlockId block_id, SymbolId symbol_id);
-
-    // Gathers the value(s) of the given symbol at the start of the block.
-    // CAREFUL: in_values must not modified, pointer references unstable hash map memory.
-    ValueList* in_values(BlockId block_id, SymbolId symbol_id);
-
-    // Gathers the value(s) of the given symbol at the end of the block.
-    // CAREFUL: out_values must not modified, pointer references unstable hash map memory.
-    ValueList* out_values(BlockId block_id, SymbolId symbol_id);
+    // Gathers all assignments to the given symbol that can be visible in the given handler.
+    void find_visible_values(ValueSet& values, BlockId handler_id, SymbolId symbol_id);
 
 private:
     Function& func_;
 
+    // All handler blocks that are being used, in order of their discovery.
+    std::vector<BlockId> handlers_;
+
     // Maps from handler blocks to source blocks that use that handler.
     absl::flat_hash_map<BlockId, std::vector<BlockId>, UseHasher> reverse_handlers_;
-
-    // Memoized values for the symbol's value at the start of a block.
-    absl::flat_hash_map<std::tuple<BlockId, SymbolId>, ValueList, UseHasher> in_values_;
-
-    // Memoized values for the symbol's value at the end of a block.
-    absl::flat_hash_map<std::tuple<BlockId, SymbolId>, ValueList, UseHasher> out_values_;
 };
 
 } // namespace
@@ -69,15 +70,16 @@ bool Pass::analyze_cfg() {
         const auto& block = func_[block_id];
         auto handler_id = block.handler();
         if (handler_id) {
-            reverse_handlers_[handler_id].push_back(block_id);
+            auto& sources = reverse_handlers_[handler_id];
+            if (sources.empty())
+                handlers_.push_back(handler_id);
+            sources.push_back(block_id);
         }
     }
-    return !reverse_handlers_.empty();
+    return !handlers_.empty();
 }
 
 void Pass::link_instructions() {
-    ValueSet operand_set;
-
     // Walk every exception handler block and construct the operand sets for all observe_assign instructions.
     // This is done by walking the reverse edges to the source blocks (which use the block as a handler) and
     // inspecting the current value(s) for a certain symbol - very similar to the classical phi node analysis.
@@ -87,7 +89,7 @@ void Pass::link_instructions() {
     // All publish_assign instructions that stay completely unreferenced by any observe_assign
     // instructions (these should be the vast majority in normal code) will be optimized out by the dead
     // code elimination pass.
-    for (const auto& [handler_id, source_ids] : reverse_handlers_) {
+    for (const auto& handler_id : handlers_) {
         auto handler = func_.ptr_to(handler_id);
         for (auto inst_id : handler->insts()) {
             auto inst = func_.ptr_to(inst_id);
@@ -100,15 +102,11 @@ void Pass::link_instructions() {
                 "Operands must not have been assigned to this ObserveAssign instruction yet.");
 
             // Construct operand set
-            operand_set.clear();
-            for (auto source_id : source_ids) {
-                TIRO_DEBUG_ASSERT(
-                    func_[source_id].handler() == handler_id, "Inconsistent block handler.");
-                fill_operand_set(operand_set, source_id, obs.symbol);
-            }
+            ValueSet values;
+            find_visible_values(values, handler_id, obs.symbol);
 
 #if TIRO_DEBUG
-            for (const auto op_inst_id : operand_set) {
+            for (const auto op_inst_id : values.items()) {
                 const auto& op_inst = func_[op_inst_id];
                 TIRO_DEBUG_ASSERT(op_inst.value().type() == ValueType::PublishAssign,
                     "All operands must be publish_assign instructions.");
@@ -116,115 +114,68 @@ void Pass::link_instructions() {
 #endif
 
             // Alter the existing instruction
-            LocalList::Storage storage(operand_set.begin(), operand_set.end());
+            LocalList::Storage storage(values.items().begin(), values.items().end());
             obs.operands = func_.make(LocalList(std::move(storage)));
             inst->value(std::move(obs));
         }
     }
 }
 
-void Pass::fill_operand_set(ValueSet& operands, BlockId block_id, SymbolId symbol_id) {
-    TIRO_DEBUG_ASSERT(block_id != func_.entry(), "Must not visit the entry block.");
-
-    // Ensure initial value is available to the exception handler.
-    {
-        ValueList* pred_values = in_values(block_id, symbol_id);
-        operands.insert(pred_values->begin(), pred_values->end());
-    }
-
-    // Simulate assignments in this block.
-    const auto& block = func_[block_id];
-    for (auto inst_id : block.insts()) {
-        const auto& inst = func_[inst_id];
-        switch (inst.value().type()) {
-        case ValueType::PublishAssign: {
-            auto& assign = inst.value().as_publish_assign();
-            if (assign.symbol == symbol_id)
-                operands.insert(inst_id);
-            break;
-        }
-        default:
-            break;
-        }
-    }
-}
-
-ValueList* Pass::in_values(BlockId block_id, SymbolId symbol_id) {
-    if (auto it = in_values_.find({block_id, symbol_id}); it != in_values_.end()) {
-        return &it->second;
-    }
-
-    auto write = [&](ValueList set) -> ValueList* {
-        return &(in_values_[{block_id, symbol_id}] = std::move(set));
+void Pass::find_visible_values(ValueSet& values, BlockId handler_id, SymbolId symbol_id) {
+    auto is_assign = [&](InstId inst_id) {
+        const auto& value = func_[inst_id].value();
+        return value.type() == ValueType::PublishAssign
+               && value.as_publish_assign().symbol == symbol_id;
     };
 
-    auto block = func_.ptr_to(block_id);
+    // Blocks whose value(s) on entry are visible.
+    std::vector<BlockId> pending;
+    absl::flat_hash_set<BlockId, UseHasher> seen;
+    auto visit_entry = [&](BlockId block_id) {
+        if (seen.insert(block_id).second)
+            pending.push_back(block_id);
+    };
 
-    // Must also take handler edges into account here.
-    if (block->is_handler()) {
-        const auto reverse_it = reverse_handlers_.find(block_id);
-        TIRO_DEBUG_ASSERT(reverse_it != reverse_handlers_.end(),
+    // Control can reach the handler from any point of its source blocks. All assignments
+    // and the initial values of the block are visible.
+    auto visit_sources = [&](BlockId id) {
+        const auto it = reverse_handlers_.find(id);
+        TIRO_DEBUG_ASSERT(it != reverse_handlers_.end(),
             "There must be reverse edges for every handler block.");
-
-        const auto& handler_preds = reverse_it->second;
-        if (handler_preds.empty())
-            return write({});
-        if (handler_preds.size() == 1)
-            return write(*out_values(handler_preds[0], symbol_id));
-
-        ValueSet set;
-        write({}); // Place a sentinel to stop recursion in control flow loops.
-        for (const auto pred_id : reverse_it->second) {
-            ValueList* pred_values = out_values(pred_id, symbol_id);
-            set.insert(pred_values->begin(), pred_values->end());
+        for (const auto& source_id : it->second) {
+            TIRO_DEBUG_ASSERT(source_id != func_.entry(), "Must not visit the entry block.");
+            TIRO_DEBUG_ASSERT(func_[source_id].handler() == id, "Inconsistent block handler.");
+            for (auto inst_id : func_[source_id].insts()) {
+                if (is_assign(inst_id))
+                    values.insert(inst_id);
+            }
+            visit_entry(source_id);
         }
-        return write(ValueList(set.begin(), set.end()));
-    }
-
-    // Not a handler, inspect normal predecessors.
-    const auto pred_count = block->predecessor_count();
-    if (pred_count == 0)
-        return write({});
-    if (pred_count == 1)
-        return write(*out_values(block->predecessor(0), symbol_id));
-
-    ValueSet set;
-    write({}); // Place a sentinel to stop recursion in control flow loops.
-    for (const auto pred_id : block->predecessors()) {
-        ValueList* pred_values = out_values(pred_id, symbol_id);
-        set.insert(pred_values->begin(), pred_values->end());
-    }
-    return write(ValueList(set.begin(), set.end()));
-}
-
-ValueList* Pass::out_values(BlockId block_id, SymbolId symbol_id) {
-    if (auto it = out_values_.find({block_id, symbol_id}); it != out_values_.end()) {
-        return &it->second;
-    }
-
-    auto write = [&](ValueList set) -> ValueList* {
-        return &(out_values_[{block_id, symbol_id}] = std::move(set));
     };
 
-    auto block = func_.ptr_to(block_id);
-
-    // Simulate assignments to the symbol.
-    for (const auto& inst_id : reverse_view(block->insts())) {
-        const auto& inst = func_[inst_id];
-        switch (inst.value().type()) {
-        case ValueType::PublishAssign: {
-            const auto& assign = inst.value().as_publish_assign();
-            if (assign.symbol == symbol_id)
-                return write({inst_id});
-            break;
+    // Only the last assignment is visible at the end of a block.
+    auto visit_exit = [&](BlockId block_id) {
+        for (const auto& inst_id : reverse_view(func_[block_id].insts())) {
+            if (is_assign(inst_id)) {
+                values.insert(inst_id);
+                return;
+            }
         }
-        default:
-            break;
+        visit_entry(block_id);
+    };
+
+    visit_sources(handler_id);
+    while (!pending.empty()) {
+        const auto block_id = pending.back();
+        pending.pop_back();
+
+        if (func_[block_id].is_handler()) {
+            visit_sources(block_id);
+        } else {
+            for (const auto& pred_id : func_[block_id].predecessors())
+                visit_exit(pred_id);
         }
     }
-
-    // No assignment found in this block, lookup in the predecessors.
-    return write(*in_values(block_id, symbol_id));
 }
 
 void connect_assignment_observers(Function& func) {
-- 
2.43.0


From a459d4a40303cb5f53ab68d2a3013057dd5ceace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:15 +0000
Subject: [PATCH 14/42] fix: report invalid utf8 in source files instead of
 failing with an internal error

---
 src/compiler/compiler.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/compiler/compiler.cpp b/src/compiler/compiler.cpp
index 609b2b5..de5b4f3 100644
--- a/src/compiler/compiler.cpp
+++ b/src/compiler/compiler.cpp
@@ -138,7 +138,9 @@ SyntaxTree Compiler::parse_file(std::string_view source) {
     };
 
     if (auto res = validate_utf8(source); !res.ok) {
-        SyntaxTree tree(source);
+        // Continue with an empty file.
+        const Token eof(TokenType::Eof, SourceRange::from_std_offset(0));
+        SyntaxTree tree = parse(Span<const Token>(&eof, 1));
         tree.errors().push_back(SyntaxError(
             "The file contains invalid utf8.", SourceRange::from_std_offset(res.error_offset)));
         return tree;
-- 
2.43.0


From 10e5c5f422ca07931402de2bab4d3c07b54fd67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:15 +0000
Subject: [PATCH 15/42] fix: lex operators at the very end of a file

---
 src/compiler/syntax/lexer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compiler/syntax/lexer.cpp b/src/compiler/syntax/lexer.cpp
index cac32ef..4154fb7 100644
--- a/src/compiler/syntax/lexer.cpp
+++ b/src/compiler/syntax/lexer.cpp
@@ -448,7 +448,8 @@ bool Lexer::eof() const {
 }
 
 CodePoint Lexer::current() const {
-    return input_.get();
+    // Operators may be followed by the end of the file.
+    return input_.current().value_or(invalid_code_point);
 }
 
 std::optional<CodePoint> Lexer::ahead(size_t n) {
-- 
2.43.0


From 3fe62bd284d8ef0ddf587952dc3360747e3f9e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:15 +0000
Subject: [PATCH 16/42] fix: reject break and continue that target a loop
 outside the current function

---
 src/compiler/semantics/structure_check.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compiler/semantics/structure_check.cpp b/src/compiler/semantics/structure_check.cpp
index b5e0b60..dfff05a 100644
--- a/src/compiler/semantics/structure_check.cpp
+++ b/src/compiler/semantics/structure_check.cpp
@@ -114,7 +114,9 @@ void StructureChecker::visit_binding(NotNull<AstBinding*> binding) {
 }
 
 void StructureChecker::visit_func_decl(NotNull<AstFuncDecl*> decl) {
+    // Loops that surround a function can not be controlled from within that function.
     auto reset_func = enter_func(decl);
+    auto reset_loop = replace_value(current_loop_, nullptr);
     visit_decl(decl);
 }
 
-- 
2.43.0


From 8f078c29af0aaaa1a7eb2b22111033dd8794ed69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:15 +0000
Subject: [PATCH 17/42] fix: stop generating code for statements that cannot be
 reached

---
 src/compiler/ir_gen/compile_expr.cpp |  7 ++++++-
 src/compiler/ir_gen/compile_stmt.cpp | 13 +++++++------
 src/compiler/ir_gen/func.cpp         | 17 ++++++++++++-----
 src/compiler/ir_gen/func.hpp         |  3 +++
 4 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/src/compiler/ir_gen/compile_expr.cpp b/src/compiler/ir_gen/compile_expr.cpp
index 956da47..e41c37a 100644
--- a/src/compiler/ir_gen/compile_expr.cpp
+++ b/src/compiler/ir_gen/compile_expr.cpp
@@ -188,7 +188,8 @@ InstResult PathCompiler::compile(NotNull<AstExpr*> topmost) {
     // If an end block was created due to optional accesses, continue in that block. Otherwise,
     // we must still be in the original block.
     if (end_block_) {
-        chain_bb_.end(Terminator::make_jump(*end_block_));
+        if (chain_result)
+            chain_bb_.end(Terminator::make_jump(*end_block_));
         ctx().seal(*end_block_);
         chain_bb_.assign(*end_block_);
     }
@@ -595,6 +596,10 @@ InstResult ExprCompiler::visit_if_expr(NotNull<AstIfExpr*> expr, CurrentBlock& b
     ctx().seal(end_block);
     bb.assign(end_block);
 
+    auto reachable = ctx().check_reachable(bb);
+    if (!reachable)
+        return reachable.failure();
+
     if (!has_value) {
         TIRO_DEBUG_ASSERT(can_elide(), "Must be able to elide value generation.");
         return InstId();
diff --git a/src/compiler/ir_gen/compile_stmt.cpp b/src/compiler/ir_gen/compile_stmt.cpp
index 702c7d4..976f188 100644
--- a/src/compiler/ir_gen/compile_stmt.cpp
+++ b/src/compiler/ir_gen/compile_stmt.cpp
@@ -51,7 +51,7 @@ OkResult StmtCompiler::visit_assert_stmt(NotNull<AstAssertStmt*> stmt, CurrentBl
     ctx().seal(fail_block);
     ctx().seal(ok_block);
 
-    {
+    [&]() {
         auto nested = ctx().make_current(fail_block);
 
         // The expression (in source code form) that failed to return true.
@@ -67,10 +67,10 @@ OkResult StmtCompiler::visit_assert_stmt(NotNull<AstAssertStmt*> stmt, CurrentBl
             return nested.compile_value(Constant::make_null());
         }();
         if (!message_result)
-            return message_result.failure();
+            return;
 
         nested.end(Terminator::make_assert_fail(expr_inst, *message_result, result().exit()));
-    }
+    }();
 
     bb.assign(ok_block);
     return ok;
@@ -189,7 +189,7 @@ OkResult StmtCompiler::visit_for_stmt(NotNull<AstForStmt*> stmt, CurrentBlock& b
     ctx().seal(cond_block);
     ctx().seal(end_block);
     bb.assign(end_block);
-    return cond_result;
+    return ctx().check_reachable(bb);
 }
 
 OkResult StmtCompiler::visit_for_each_stmt(NotNull<AstForEachStmt*> stmt, CurrentBlock& bb) {
@@ -276,8 +276,9 @@ OkResult StmtCompiler::visit_while_stmt(NotNull<AstWhileStmt*> stmt, CurrentBloc
         auto cond_result = compile_loop_cond(stmt->cond(), body_block, end_block, cond_bb);
         if (!cond_result) {
             ctx().seal(cond_block);
-            bb.assign(cond_block);
-            return cond_result;
+            ctx().seal(end_block);
+            bb.assign(end_block);
+            return ctx().check_reachable(bb);
         }
     }
 
diff --git a/src/compiler/ir_gen/func.cpp b/src/compiler/ir_gen/func.cpp
index 1a296a4..5bd1a3f 100644
--- a/src/compiler/ir_gen/func.cpp
+++ b/src/compiler/ir_gen/func.cpp
@@ -250,11 +250,8 @@ void FunctionIRGen::enter_compilation(FunctionRef<void(CurrentBlock& bb)> compil
 
     compile_body(bb);
 
-    TIRO_DEBUG_ASSERT(result_[bb.id()].terminator().type() == TerminatorType::Return,
-        "The last block must perform a return.");
-    TIRO_DEBUG_ASSERT(result_[bb.id()].terminator().as_return().target == result_.exit(),
-        "The last block at function level must always return to the exit "
-        "block.");
+    TIRO_DEBUG_ASSERT(result_[bb.id()].terminator().type() != TerminatorType::None,
+        "The last block must perform a return or be unreachable.");
 
     TIRO_DEBUG_ASSERT(active_regions_.empty(), "No active regions must be left behind.");
     TIRO_DEBUG_ASSERT(local_env_stack_.empty(), "No active environments must be left behind.");
@@ -445,6 +442,16 @@ BlockId FunctionIRGen::make_handler_block(InternedString label) {
     return block_id;
 }
 
+OkResult FunctionIRGen::check_reachable(CurrentBlock& bb) {
+    const auto block = result_.ptr_to(bb.id());
+    TIRO_DEBUG_ASSERT(block->sealed(), "The block's predecessors must be known.");
+    if (block->predecessor_count() > 0)
+        return ok;
+
+    bb.end(Terminator::make_never(result_.exit()));
+    return unreachable;
+}
+
 InstId FunctionIRGen::define_new(Value&& value, BlockId block_id) {
     return define_new(Inst(std::move(value)), block_id);
 }
diff --git a/src/compiler/ir_gen/func.hpp b/src/compiler/ir_gen/func.hpp
index 1b62543..6032874 100644
--- a/src/compiler/ir_gen/func.hpp
+++ b/src/compiler/ir_gen/func.hpp
@@ -230,6 +230,9 @@ public:
     /// Creates a new handler block.
     BlockId make_handler_block(InternedString label);
 
+    /// Checks whether the (sealed) current block can be reached. Unreachable blocks are terminated.
+    OkResult check_reachable(CurrentBlock& bb);
+
     // Compiles the contents of an exception handler block. Active closure environments are made available
     // to the code in the handler.
     void compile_handler(BlockId handler, FunctionRef<void(CurrentBlock& bb)> compile_body);
-- 
2.43.0


From 3898fb8e73abd4de2e6e4f8ead5ec9bc5333f37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:36 +0000
Subject: [PATCH 18/42] fix: do not mistake deeply nested code for a stuck
 parser

---
 src/compiler/syntax/parser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compiler/syntax/parser.cpp b/src/compiler/syntax/parser.cpp
index c84d016..48429ba 100644
--- a/src/compiler/syntax/parser.cpp
+++ b/src/compiler/syntax/parser.cpp
@@ -106,7 +106,8 @@ void Parser::error(std::string message) {
 }
 
 void Parser::on_inspection() {
-    if (++inspections_ >= 1024) {
+    // Every open (nested) construct may inspect the current token while it is being completed.
+    if (++inspections_ >= 1024 + 8 * pos_) {
         TIRO_ERROR(
             "The parser appears to be stuck. Please report this issue together with a source code "
             "snippet that reproduces the bug.");
-- 
2.43.0


From 9edcc871170609720041fab08296c600cf4219f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:29 +0000
Subject: [PATCH 19/42] verif: hooks to control allocations and to detect
 accesses to freed cells (guarded by TIRO_VERIF)

---
 src/vm/heap/heap.cpp | 30 ++++++++++++++++++++++++++++++
 src/vm/heap/heap.hpp | 10 ++++++++++
 2 files changed, 40 insertions(+)

diff --git a/src/vm/heap/heap.cpp b/src/vm/heap/heap.cpp
index 7b31865..e44e063 100644
--- a/src/vm/heap/heap.cpp
+++ b/src/vm/heap/heap.cpp
@@ -8,8 +8,22 @@
 #include "common/scope_guards.hpp"
 #include "vm/heap/allocator.hpp"
 
+#ifdef TIRO_VERIF
+#    include <sanitizer/asan_interface.h>
+// Free cells must not be accessed (except for the list entry in the first cell of a free block).
+#    define TIRO_VERIF_USED(data, cells) ASAN_UNPOISON_MEMORY_REGION((data), (cells) *cell_size)
+#    define TIRO_VERIF_FREE(data, cells) ASAN_POISON_MEMORY_REGION((data), (cells) *cell_size)
+#else
+#    define TIRO_VERIF_USED(data, cells)
+#    define TIRO_VERIF_FREE(data, cells)
+#endif
+
 namespace tiro::vm {
 
+#ifdef TIRO_VERIF
+VerifAllocAction (*verif_alloc_hook)(Heap& heap, size_t bytes) = nullptr;
+#endif
+
 #if 0
 #    define TIRO_TRACE_FREE_SPACE(...) fmt::print("free space: " __VA_ARGS__);
 #else
@@ -43,6 +57,7 @@ Cell* FreeSpace::allocate_exact(u32 request) {
         Cell* cell = result.data();
         NotNull<Page*> page = Page::from_address(cell, layout_);
         const u32 cell_index = page->cell_index(cell);
+        TIRO_VERIF_USED(cell, request);
         page->set_allocated(cell_index, request);
 
         // Split remaining free bytes at the end into a new free block, if necessary.
@@ -87,6 +102,7 @@ Span<Cell> FreeSpace::allocate_chunk(u32 request) {
         Cell* cell = result.data();
         NotNull<Page*> page = Page::from_address(cell, layout_);
         const u32 cell_index = page->cell_index(cell);
+        TIRO_VERIF_USED(cell, result.size());
         page->set_allocated(cell_index, result.size());
         return result;
     }
@@ -168,6 +184,8 @@ void FreeSpace::push(FreeList& list, Span<Cell> cells) {
     TIRO_DEBUG_ASSERT(cells.size() > 0, "zero sized cell span");
     static_assert(sizeof(FreeListEntry) <= sizeof(Cell));
     static_assert(alignof(FreeListEntry) <= alignof(Cell));
+    TIRO_VERIF_FREE(cells.data(), cells.size());
+    TIRO_VERIF_USED(cells.data(), 1);
     list.head = new (cells.data()) FreeListEntry(list.head, cells.size());
 }
 
@@ -207,6 +225,18 @@ std::tuple<void*, ChunkType> Heap::allocate(size_t bytes_request) {
     // TODO: Improve the decision when the collector runs.
     //  - Should also run if the allocation would exceed the max_size
     bool collector_ran = false;
+#ifdef TIRO_VERIF
+    switch (verif_alloc_hook ? verif_alloc_hook(*this, bytes_request) : VerifAllocAction::Default) {
+    case VerifAllocAction::Default:
+        break;
+    case VerifAllocAction::Collect:
+        collector_.collect(GcReason::Forced);
+        collector_ran = true;
+        break;
+    case VerifAllocAction::Fail:
+        TIRO_ERROR_WITH_CODE(TIRO_ERROR_ALLOC, "allocation failed on request");
+    }
+#endif
     if (stats_.allocated_bytes >= collector_.next_threshold()) {
         collector_.collect(GcReason::Automatic);
         collector_ran = true;
diff --git a/src/vm/heap/heap.hpp b/src/vm/heap/heap.hpp
index 283fbec..1be9609 100644
--- a/src/vm/heap/heap.hpp
+++ b/src/vm/heap/heap.hpp
@@ -155,6 +155,16 @@ struct HeapStats {
     size_t allocated_objects = 0;
 };
 
+#ifdef TIRO_VERIF
+/// Verification hook: decides what happens before an allocation.
+enum class VerifAllocAction {
+    Default, // nothing special
+    Collect, // force a garbage collection
+    Fail,    // the allocation fails with TIRO_ERROR_ALLOC
+};
+extern VerifAllocAction (*verif_alloc_hook)(Heap& heap, size_t bytes);
+#endif
+
 /// The heap manages all memory dynamically allocated by the vm.
 class Heap final {
 public:
-- 
2.43.0


From 07009dcf3fabbc9bf17d4bd5d25cd3a4b6b98b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:04 +0000
Subject: [PATCH 20/42] fix: run all finalizers before releasing the memory of
 the heap

---
 src/vm/heap/heap.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/vm/heap/heap.cpp b/src/vm/heap/heap.cpp
index e44e063..4311021 100644
--- a/src/vm/heap/heap.cpp
+++ b/src/vm/heap/heap.cpp
@@ -205,16 +205,19 @@ Heap::Heap(size_t page_size, HeapAllocator& alloc)
     , free_(layout_) {}
 
 Heap::~Heap() {
-    for (auto page : pages_) {
+    // Finalizers inspect the type of their object, which may be stored in a different chunk.
+    // All finalizers must therefore run before any memory is being released.
+    for (auto page : pages_)
         page->invoke_finalizers();
+    for (auto lob : lobs_)
+        lob->invoke_finalizer();
+
+    for (auto page : pages_)
         Page::destroy(page);
-    }
     pages_.clear();
 
-    for (auto lob : lobs_) {
-        lob->invoke_finalizer();
+    for (auto lob : lobs_)
         LargeObject::destroy(lob);
-    }
     lobs_.clear();
 }
 
-- 
2.43.0


From 299f3ca02d7b2815afd589258e3fa104e260efa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:42 +0000
Subject: [PATCH 21/42] fix: reject async tokens when the coroutine is not
 waiting for an async function

---
 src/vm/objects/native.cpp | 25 +++++++++++++++++++++++++
 src/vm/objects/native.hpp |  3 +++
 2 files changed, 28 insertions(+)

diff --git a/src/vm/objects/native.cpp b/src/vm/objects/native.cpp
index 0de761f..dc13dc6 100644
--- a/src/vm/objects/native.cpp
+++ b/src/vm/objects/native.cpp
@@ -207,6 +207,13 @@ void UnownedAsyncResumeToken::complete(Value unsafe_value, bool panic) {
         TIRO_ERROR("invalid usage of async resume token: frame did not yield yet");
     }
 
+    // The async function may have returned without yielding. In that case, the token is still valid
+    // when the coroutine is being paused by something else.
+    if (TIRO_UNLIKELY(!has_frame(coro))) {
+        TIRO_ERROR(
+            "invalid usage of async resume token: the coroutine is not waiting for an async function");
+    }
+
     Local value = sc.local(unsafe_value);
     if (!CoroutineToken::resume(ctx, token_)) {
         TIRO_ERROR(
@@ -227,6 +234,24 @@ Coroutine UnownedAsyncResumeToken::get_coro() {
     return token_->coroutine();
 }
 
+bool UnownedAsyncResumeToken::has_frame(Handle<Coroutine> coro) {
+    auto maybe_stack = coro->stack();
+    if (coro->state() != CoroutineState::Waiting || maybe_stack.is_null())
+        return false;
+
+    auto stack = maybe_stack.value();
+    auto frame = stack.top_frame();
+    if (!frame || frame->type != FrameType::Resumable)
+        return false;
+
+    // A resumable frame at the top of a waiting coroutine either called an async function's `yield()`
+    // or it is about to receive the return value of a function that paused the coroutine.
+    auto resumable_frame = static_cast<ResumableFrame*>(frame);
+    return resumable_frame->state == AsyncFrameContext::STATE_RESUME
+           && resumable_frame->locals == AsyncFrameContext::LOCALS_COUNT
+           && stack.top_value_count() == 0;
+}
+
 NotNull<ResumableFrame*> UnownedAsyncResumeToken::get_frame(Handle<Coroutine> coro) {
     auto stack = coro->stack();
     TIRO_DEBUG_ASSERT(!stack.is_null(), "waiting coroutines must have a stack");
diff --git a/src/vm/objects/native.hpp b/src/vm/objects/native.hpp
index 2c49f04..80b9560 100644
--- a/src/vm/objects/native.hpp
+++ b/src/vm/objects/native.hpp
@@ -271,6 +271,9 @@ private:
 
     Coroutine get_coro();
 
+    /// Returns true if the coroutine is paused in an async function call.
+    bool has_frame(Handle<Coroutine> coro);
+
     /// XXX: points to the coroutine stack, do not store the pointer
     /// for long (gc may run or stack may reallocate).
     NotNull<ResumableFrame*> get_frame(Handle<Coroutine> coro);
-- 
2.43.0


From 6dfd33af255b71508eca6f804d87918c3f6cf629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:42 +0000
Subject: [PATCH 22/42] fix: accept tuples as arguments in
 tiro_resumable_frame_invoke

---
 src/api/functions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/functions.cpp b/src/api/functions.cpp
index c1eeb0a..d125b7e 100644
--- a/src/api/functions.cpp
+++ b/src/api/functions.cpp
@@ -268,7 +268,7 @@ void tiro_resumable_frame_invoke(tiro_resumable_frame_t frame, int next_state, t
         auto maybe_args = to_internal_maybe(args);
         if (maybe_args) {
             auto args_handle = maybe_args.handle();
-            if (!args_handle->is<vm::Null>() && args_handle->is<vm::Tuple>())
+            if (!args_handle->is<vm::Null>() && !args_handle->is<vm::Tuple>())
                 return TIRO_REPORT(err, TIRO_ERROR_BAD_TYPE);
         }
 
-- 
2.43.0


From c6a2e1868c72b540aa15af3bd1c471eaa382c056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:05 +0000
Subject: [PATCH 23/42] fix: float literals denote the nearest float

---
 src/compiler/syntax/grammar/literals.cpp | 93 ++++++++++++++----------
 1 file changed, 55 insertions(+), 38 deletions(-)

diff --git a/src/compiler/syntax/grammar/literals.cpp b/src/compiler/syntax/grammar/literals.cpp
index ec685d7..ce4ee9e 100644
--- a/src/compiler/syntax/grammar/literals.cpp
+++ b/src/compiler/syntax/grammar/literals.cpp
@@ -4,6 +4,10 @@
 #include "common/text/code_point_range.hpp"
 
 #include <algorithm>
+#include <cmath>
+#include <limits>
+#include <locale>
+#include <sstream>
 
 namespace tiro {
 
@@ -20,6 +24,9 @@ struct IntegerInfo {
 static std::tuple<int, bool> read_base(std::string_view& source);
 static bool has_prefix(std::string_view str, std::string_view prefix);
 
+static f64 decimal_float(const std::string& digits);
+static f64 binary_float(std::string_view digits, int base);
+
 static std::optional<IntegerInfo>
 parse_integer_impl(std::string_view integer_source, FunctionRef<void(std::string_view)> error_sink);
 
@@ -101,66 +108,76 @@ std::optional<i64> parse_integer_value(
     return {};
 }
 
-// TODO: Algorithm is not very correct nor fast
 std::optional<f64>
 parse_float_value(std::string_view float_source, FunctionRef<void(std::string_view)> error_sink) {
     const auto [base, has_explicit_base] = read_base(float_source);
-    const f64 base_inv = 1.0 / base;
     (void) has_explicit_base;
 
-    f64 int_value = 0;
-    f64 frac_value = 0;
+    // Digits without separators
+    std::string digits;
+    bool has_point = false;
     bool has_digit = false;
-
-    auto p = float_source.begin();
-    const auto e = float_source.end();
-
-    // Integer part
-    for (; p != e; ++p) {
-        auto c = *p;
+    for (auto c : float_source) {
         if (c == '_')
             continue;
-        if (c == '.')
-            break;
 
-        auto digit = to_digit(c, base);
-        if (TIRO_UNLIKELY(!digit)) {
+        if (c == '.' && !has_point) {
+            has_point = true;
+            digits += c;
+            continue;
+        }
+
+        if (TIRO_UNLIKELY(!to_digit(c, base))) {
             error_sink("invalid digit for this base");
             return {};
         }
 
         has_digit = true;
-        int_value *= base;
-        int_value += *digit;
+        digits += c;
+    }
+
+    if (!has_digit) {
+        error_sink("expected at least one digit");
+        return {};
     }
+    return base == 10 ? decimal_float(digits) : binary_float(digits, base);
+}
 
-    // Float part
-    if (p != e && *p == '.') {
-        ++p;
+// Returns the float nearest to the given decimal digits.
+static f64 decimal_float(const std::string& digits) {
+    std::istringstream stream(digits);
+    stream.imbue(std::locale::classic());
 
-        f64 factor = base_inv;
-        for (; p != e; ++p) {
-            auto c = *p;
-            if (c == '_')
-                continue;
+    f64 value = 0;
+    if (!(stream >> value) && value != 0)
+        return std::numeric_limits<f64>::infinity(); // out of range
+    return value;
+}
 
-            auto digit = to_digit(c, base);
-            if (TIRO_UNLIKELY(!digit)) {
-                error_sink("invalid digit for this base");
-                return {};
-            }
+// Returns the float nearest to the given digits. The base must be a power of two.
+static f64 binary_float(std::string_view digits, int base) {
+    const int bits = base == 2 ? 1 : base == 8 ? 3 : 4;
 
-            has_digit = true;
-            frac_value += factor * *digit;
-            factor *= base_inv;
+    u64 mantissa = 0;
+    int exponent = 0;
+    bool fraction = false;
+    for (auto c : digits) {
+        if (c == '.') {
+            fraction = true;
+            continue;
         }
-    }
 
-    if (!has_digit) {
-        error_sink("expected at least one digit");
-        return {};
+        const u64 digit = static_cast<u64>(*to_digit(c, base));
+        if (mantissa >> (64 - bits) == 0) {
+            mantissa = (mantissa << bits) | digit;
+            exponent -= fraction ? bits : 0;
+        } else {
+            // Only relevant for rounding
+            mantissa |= (digit != 0);
+            exponent += fraction ? 0 : bits;
+        }
     }
-    return int_value + frac_value;
+    return std::ldexp(static_cast<f64>(mantissa), exponent);
 }
 
 std::optional<u32>
-- 
2.43.0


From 99b230f8308bf5cbf9acc1edd96ee566b902cfa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:22 +0000
Subject: [PATCH 24/42] fix: initialize imported modules when an earlier
 attempt to resolve the importing module failed

---
 src/vm/modules/registry.cpp | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/vm/modules/registry.cpp b/src/vm/modules/registry.cpp
index 6da5ff6..6af98e7 100644
--- a/src/vm/modules/registry.cpp
+++ b/src/vm/modules/registry.cpp
@@ -149,20 +149,24 @@ void ModuleRegistry::resolve_module(Context& ctx, Handle<Module> module) {
                 current_members = frame.module_->members();
                 while (i < n) {
                     current_member = current_members->unchecked_get(i);
-                    if (!current_member->is<UnresolvedImport>()) {
+                    if (current_member->is<Module>()) {
+                        // Already linked by an earlier attempt. The imported module is not
+                        // initialized if that attempt failed.
+                        imported_module = current_member.must_cast<Module>();
+                    } else if (current_member->is<UnresolvedImport>()) {
+                        // Search for the imported module and link it into the members tuple on success.
+                        imported_name = current_member.must_cast<UnresolvedImport>()->module_name();
+                        if (auto found = find_module(*imported_name)) {
+                            imported_module = *found;
+                        } else {
+                            TIRO_ERROR_WITH_CODE(TIRO_ERROR_MODULE_NOT_FOUND,
+                                "module '{}' was not found", imported_name->view());
+                        }
+                        current_members->unchecked_set(i, *imported_module);
+                    } else {
                         ++i;
                         continue;
                     }
-
-                    // Search for the imported module and link it into the members tuple on success.
-                    imported_name = current_member.must_cast<UnresolvedImport>()->module_name();
-                    if (auto found = find_module(*imported_name)) {
-                        imported_module = *found;
-                    } else {
-                        TIRO_ERROR_WITH_CODE(TIRO_ERROR_MODULE_NOT_FOUND,
-                            "module '{}' was not found", imported_name->view());
-                    }
-                    current_members->unchecked_set(i, *imported_module);
                     ++i;
 
                     // Recurse if necessary. CAREFUL: if recurse() pushes a new frame,
-- 
2.43.0


From 81bae9a469321fdd20b05828ef84d3542f64245f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:59 +0000
Subject: [PATCH 25/42] fix: verify index operands, function and schema ids and
 module variables when loading bytecode

---
 src/vm/modules/verify.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/vm/modules/verify.cpp b/src/vm/modules/verify.cpp
index 5bf7a5f..de30604 100644
--- a/src/vm/modules/verify.cpp
+++ b/src/vm/modules/verify.cpp
@@ -268,7 +268,7 @@ void ModuleVerifier::visit_variable(
     [[maybe_unused]] const BytecodeMember::Variable& v, [[maybe_unused]] BytecodeMemberId id) {}
 
 void ModuleVerifier::visit_function(const BytecodeMember::Function& f, BytecodeMemberId id) {
-    if (!f.id) {
+    if (!f.id || !module_.functions().in_bounds(f.id)) {
         fail(fmt::format("invalid function reference (in member {})", id.value()));
     }
 
@@ -286,7 +286,7 @@ void ModuleVerifier::visit_function(const BytecodeMember::Function& f, BytecodeM
 
 void ModuleVerifier::visit_record_schema(
     const BytecodeMember::RecordSchema& r, BytecodeMemberId id) {
-    if (!r.id) {
+    if (!r.id || !module_.records().in_bounds(r.id)) {
         fail(fmt::format("invalid record schema reference (in member {})", id.value()));
     }
 
@@ -476,14 +476,22 @@ void FunctionVerifier::InstructionVisitor::visit_store_param(
 
 void FunctionVerifier::InstructionVisitor::visit_load_module(
     const BytecodeInstr::LoadModule& load_module) {
-    self.check(load_module.source);
+    auto& member = self.check_reference(load_module.source);
+    if (member.type() == BytecodeMemberType::RecordSchema)
+        self.fail("LoadModule instruction must not reference a record schema");
+    if (member.type() == BytecodeMemberType::Function) {
+        auto& func = self.parent_.module()[member.as_function().id];
+        if (func.type() != BytecodeFunctionType::Normal)
+            self.fail("LoadModule instruction must not reference a closure function");
+    }
     self.check(load_module.target);
 }
 
 void FunctionVerifier::InstructionVisitor::visit_store_module(
     const BytecodeInstr::StoreModule& store_module) {
     self.check(store_module.source);
-    self.check(store_module.target);
+    if (self.check(store_module.target) != BytecodeMemberType::Variable)
+        self.fail("target in StoreModule instruction must reference a variable");
 }
 
 void FunctionVerifier::InstructionVisitor::visit_load_member(
@@ -517,6 +525,7 @@ void FunctionVerifier::InstructionVisitor::visit_store_tuple_member(
 void FunctionVerifier::InstructionVisitor::visit_load_index(
     const BytecodeInstr::LoadIndex& load_index) {
     self.check(load_index.array);
+    self.check(load_index.index);
     self.check(load_index.target);
 }
 
@@ -524,6 +533,7 @@ void FunctionVerifier::InstructionVisitor::visit_store_index(
     const BytecodeInstr::StoreIndex& store_index) {
     self.check(store_index.source);
     self.check(store_index.array);
+    self.check(store_index.index);
 }
 
 void FunctionVerifier::InstructionVisitor::visit_load_closure(
-- 
2.43.0


From 40b36328a7316fd8cdc31a75263821253232ceb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:26 +0000
Subject: [PATCH 26/42] fix: fail with an allocation error if the size of an
 object exceeds the range of cell counts

---
 src/vm/heap/heap.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vm/heap/heap.cpp b/src/vm/heap/heap.cpp
index 4311021..c7cc70d 100644
--- a/src/vm/heap/heap.cpp
+++ b/src/vm/heap/heap.cpp
@@ -1,6 +1,7 @@
 #include "vm/heap/heap.hpp"
 
 #include <algorithm>
+#include <limits>
 #include <new>
 
 #include "fmt/format.h"
@@ -245,6 +246,10 @@ std::tuple<void*, ChunkType> Heap::allocate(size_t bytes_request) {
         collector_ran = true;
     }
 
+    // Block sizes are represented as 32 bit cell counts.
+    if (TIRO_UNLIKELY(bytes_request / cell_size >= std::numeric_limits<u32>::max()))
+        TIRO_ERROR_WITH_CODE(TIRO_ERROR_ALLOC, "object size too large");
+
     // Objects of large size get an allocation of their own.
     const u32 cells_request = ceil_div(bytes_request, cell_size);
     if (cells_request >= layout_.large_object_cells) {
-- 
2.43.0


From e403a2af5cb180ff1c6518e3e27fbcea273f097b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:36 +0000
Subject: [PATCH 27/42] fix: do not account for heap memory the system refused
 to allocate

---
 src/vm/heap/heap.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vm/heap/heap.cpp b/src/vm/heap/heap.cpp
index c7cc70d..53b4d50 100644
--- a/src/vm/heap/heap.cpp
+++ b/src/vm/heap/heap.cpp
@@ -336,11 +336,11 @@ void* Heap::allocate_raw(size_t size, size_t align) {
     TIRO_DEBUG_ASSERT(stats_.total_bytes <= max_size_, "invalid total bytes count");
     if (TIRO_UNLIKELY(size > max_size_ - stats_.total_bytes))
         TIRO_ERROR_WITH_CODE(TIRO_ERROR_ALLOC, "memory limit reached");
-    stats_.total_bytes += size;
 
-    void* result = alloc_.allocate_aligned(size, align);
+    void* result = alloc_.allocate_aligned(size, align); // may throw
     if (TIRO_UNLIKELY(!result))
-        TIRO_ERROR("failed to allocate block of size {}", size);
+        TIRO_ERROR_WITH_CODE(TIRO_ERROR_ALLOC, "failed to allocate block of size {}", size);
+    stats_.total_bytes += size;
     return result;
 }
 
-- 
2.43.0


From a27abafad0b887dce6a487afdb8e7f83ce15e2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:29 +0000
Subject: [PATCH 28/42] fix: collect garbage before failing to allocate a large
 object because of the memory limit

---
 src/vm/heap/heap.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/vm/heap/heap.cpp b/src/vm/heap/heap.cpp
index 53b4d50..ae3d999 100644
--- a/src/vm/heap/heap.cpp
+++ b/src/vm/heap/heap.cpp
@@ -253,6 +253,13 @@ std::tuple<void*, ChunkType> Heap::allocate(size_t bytes_request) {
     // Objects of large size get an allocation of their own.
     const u32 cells_request = ceil_div(bytes_request, cell_size);
     if (cells_request >= layout_.large_object_cells) {
+        // Garbage must not be the reason for reaching the memory limit.
+        if (!collector_ran
+            && LargeObject::dynamic_size(cells_request) > max_size_ - stats_.total_bytes) {
+            collector_.collect(GcReason::AllocFailure);
+            collector_ran = true;
+        }
+
         auto lob = add_lob(cells_request);
         stats_.allocated_objects += 1;
         stats_.allocated_bytes += bytes_request;
-- 
2.43.0


From bc9a0b66e21e519f6a0e9ddbbe87d0baab811705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:41 +0000
Subject: [PATCH 29/42] fix: keep hash tables consistent when the allocation of
 their index fails

---
 src/vm/objects/hash_table.cpp | 22 +++++++++++++++-------
 src/vm/objects/hash_table.hpp |  4 ++--
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/vm/objects/hash_table.cpp b/src/vm/objects/hash_table.cpp
index 95e097e..6dd87d2 100644
--- a/src/vm/objects/hash_table.cpp
+++ b/src/vm/objects/hash_table.cpp
@@ -556,9 +556,13 @@ void HashTable::init_first(Layout* data, Context& ctx) {
     using InitialSizeClass = SizeClassTraits<SizeClass::U8>;
 
     TIRO_TABLE_TRACE("Initializing hash table to initial capacity");
-    set_entries(data, HashTableStorage::make(ctx, initial_table_capacity));
-    set_index(data, InitialSizeClass::BufferAccess::make(
-                        ctx, initial_index_capacity, InitialSizeClass::empty_value));
+    // Both allocations may fail, the table must not be modified before they succeeded.
+    Scope sc(ctx);
+    Local entries = sc.local(HashTableStorage::make(ctx, initial_table_capacity));
+    Local index = sc.local(InitialSizeClass::BufferAccess::make(
+        ctx, initial_index_capacity, InitialSizeClass::empty_value));
+    set_entries(data, *entries);
+    set_index(data, *index);
     data->static_payload()->size = 0;
     data->static_payload()->mask = initial_index_capacity - 1;
 }
@@ -604,12 +608,16 @@ void HashTable::grow_to_capacity(
                 new_entries->append(entry);
         }
     }
-    set_entries(data, *new_entries);
 
     // TODO: make rehashing cheaper by reusing the old index table...
+    // NOTE: the index must be allocated before the entries are replaced because the allocation may fail.
     const SizeClass next_size_class = index_size_class(new_entry_capacity);
     dispatch_size_class(next_size_class, [&](auto traits) {
-        this->template recreate_index<decltype(traits)>(data, ctx, new_index_capacity);
+        using NextTraits = decltype(traits);
+        Local new_index = sc.local(
+            NextTraits::BufferAccess::make(ctx, new_index_capacity, NextTraits::empty_value));
+        set_entries(data, *new_entries);
+        this->template replace_index<NextTraits>(data, *new_index, new_index_capacity);
     });
 }
 
@@ -652,13 +660,13 @@ void HashTable::compact(Layout* data) {
 }
 
 template<typename ST>
-void HashTable::recreate_index(Layout* data, Context& ctx, size_t capacity) {
+void HashTable::replace_index(Layout* data, Buffer index, size_t capacity) {
     TIRO_DEBUG_ASSERT(
         size() == occupied_entries(), "Entries array must not have any deleted elements.");
     TIRO_DEBUG_ASSERT(is_pow2(capacity), "New index capacity must be a power of two.");
 
     // TODO rehashing can be made faster, see rust index map at https://github.com/bluss/indexmap
-    set_index(data, ST::BufferAccess::make(ctx, capacity, ST::empty_value));
+    set_index(data, index);
     data->static_payload()->mask = capacity - 1;
     rehash_index<ST>(data);
 }
diff --git a/src/vm/objects/hash_table.hpp b/src/vm/objects/hash_table.hpp
index 3071da2..53e0bf2 100644
--- a/src/vm/objects/hash_table.hpp
+++ b/src/vm/objects/hash_table.hpp
@@ -297,10 +297,10 @@ private:
     template<typename ST>
     void compact(Layout* data);
 
-    // Creates a new index table from an existing entries array.
+    // Installs a new (empty) index table and fills it using the existing entries array.
     // This could be optimized further by using the old index table (?).
     template<typename ST>
-    void recreate_index(Layout* data, Context& ctx, size_t capacity);
+    void replace_index(Layout* data, Buffer index, size_t capacity);
 
     // Creates the index from scratch using the existing index array.
     // The index array should have been cleared (if reused) or initialized
-- 
2.43.0


From 2faed1c75ba1b281e69f921bb7a461c1232089b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:48 +0000
Subject: [PATCH 30/42] fix: accept missing callbacks and null handles without
 crashing (tiro_coroutine_set_callback, tiro_boolean_value)

---
 src/api/objects.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/api/objects.cpp b/src/api/objects.cpp
index a6724e0..047d09e 100644
--- a/src/api/objects.cpp
+++ b/src/api/objects.cpp
@@ -201,7 +201,7 @@ void tiro_make_boolean(tiro_vm_t vm, bool value, tiro_handle_t result, tiro_erro
 
 bool tiro_boolean_value(tiro_vm_t vm, tiro_handle_t value) {
     return entry_point(nullptr, false, [&] {
-        if (!vm)
+        if (!vm || !value)
             return false;
 
         vm::Context& ctx = vm->ctx;
@@ -842,7 +842,8 @@ void tiro_coroutine_set_callback(tiro_vm_t vm, tiro_handle_t coroutine,
     tiro_error_t* err) {
     return entry_point(err, [&] {
         if (!vm || !coroutine || !callback) {
-            cleanup(userdata);
+            if (cleanup)
+                cleanup(userdata);
             return TIRO_REPORT(err, TIRO_ERROR_BAD_ARG);
         }
 
@@ -896,7 +897,8 @@ void tiro_coroutine_set_callback(tiro_vm_t vm, tiro_handle_t coroutine,
 
         auto maybe_coro = to_internal(coroutine).try_cast<vm::Coroutine>();
         if (!maybe_coro) {
-            cleanup(userdata);
+            if (cleanup)
+                cleanup(userdata);
             return TIRO_REPORT(err, TIRO_ERROR_BAD_TYPE);
         }
 
-- 
2.43.0


From 1bd97de11635be7bfa9dccfd8d216abb661ad2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:58 +0000
Subject: [PATCH 31/42] fix: do not run unrelated coroutines while a module is
 being initialized

---
 src/vm/context.cpp          | 49 +++++++++++++++++++++++++++++++------
 src/vm/context.hpp          |  6 +++++
 src/vm/modules/registry.cpp |  2 +-
 3 files changed, 48 insertions(+), 9 deletions(-)

diff --git a/src/vm/context.cpp b/src/vm/context.cpp
index 9bafe51..0150ba8 100644
--- a/src/vm/context.cpp
+++ b/src/vm/context.cpp
@@ -96,8 +96,6 @@ void Context::run_ready() {
     if (running_)
         TIRO_ERROR("already running, nested calls are not allowed");
 
-    Interpreter& interpreter = roots_.get_interpreter();
-
     running_ = true;
     ScopeExit reset = [&] { running_ = false; };
 
@@ -111,12 +109,7 @@ void Context::run_ready() {
             break;
         }
 
-        Handle<Coroutine> coro = current.must_cast<Coroutine>();
-        interpreter.run(coro);
-        if (coro->state() == CoroutineState::Done) {
-            coro->reset_token(); // ensure old token cannot be used
-            execute_callbacks(coro);
-        }
+        run_coroutine(current.must_cast<Coroutine>());
     }
 }
 
@@ -129,7 +122,39 @@ Result Context::run_init(Handle<Value> func, MaybeHandle<Tuple> args) {
     Local coro = sc.local(make_coroutine(func, args));
     start(coro);
     run_ready();
+    return init_result(coro);
+}
+
+Result Context::run_module_init(Handle<Value> func) {
+    Scope sc(*this);
+    Local coro = sc.local(make_coroutine(func, {}));
+
+    if (running_)
+        TIRO_ERROR("already running, nested calls are not allowed");
+
+    {
+        running_ = true;
+        ScopeExit reset = [&] { running_ = false; };
 
+        loop_timestamp_ = timestamp() - startup_time_;
+
+        coro->state(CoroutineState::Started);
+        run_coroutine(coro);
+
+        // Other coroutines only make progress here if the initializer is waiting for them.
+        Local current = sc.local<Nullable<Coroutine>>();
+        while (coro->state() != CoroutineState::Done) {
+            current = dequeue_coroutine();
+            if (current->is_null())
+                break;
+
+            run_coroutine(current.must_cast<Coroutine>());
+        }
+    }
+    return init_result(coro);
+}
+
+Result Context::init_result(Handle<Coroutine> coro) {
     const auto state = coro->state();
     if (state != CoroutineState::Done)
         TIRO_ERROR("async function calls during module initialization are not implemented yet");
@@ -138,6 +163,14 @@ Result Context::run_init(Handle<Value> func, MaybeHandle<Tuple> args) {
     return coro->result().value();
 }
 
+void Context::run_coroutine(Handle<Coroutine> coro) {
+    roots_.get_interpreter().run(coro);
+    if (coro->state() == CoroutineState::Done) {
+        coro->reset_token(); // ensure old token cannot be used
+        execute_callbacks(coro);
+    }
+}
+
 void Context::schedule_coroutine(Handle<Coroutine> coro) {
     TIRO_DEBUG_ASSERT(!coro->is_null(), "Invalid coroutine.");
     TIRO_DEBUG_ASSERT(is_runnable(coro->state()), "Invalid coroutine state: cannot be run.");
diff --git a/src/vm/context.hpp b/src/vm/context.hpp
index 0ca0bc0..6ab254e 100644
--- a/src/vm/context.hpp
+++ b/src/vm/context.hpp
@@ -107,6 +107,10 @@ public:
     /// Not yet implemented because of other priorities.
     Result run_init(Handle<Value> func, MaybeHandle<Tuple> args);
 
+    /// Executes a module's initialization function. Unlike `run_init()`, this does not execute
+    /// other ready coroutines (they are driven by `run_ready()`) unless the function waits for them.
+    Result run_module_init(Handle<Value> func);
+
     /// The timestamp of the current main loop iteration, i.e.
     /// when the main loop woke up to execute ready coroutines.
     ///
@@ -122,6 +126,8 @@ private:
     // -- Functions responsible for scheduling coroutines.
     friend Interpreter;
 
+    void run_coroutine(Handle<Coroutine> coro);
+    Result init_result(Handle<Coroutine> coro);
     void schedule_coroutine(Handle<Coroutine> coro);
     Nullable<Coroutine> dequeue_coroutine();
     void execute_callbacks(Handle<Coroutine> coro);
diff --git a/src/vm/modules/registry.cpp b/src/vm/modules/registry.cpp
index 6af98e7..dd12e96 100644
--- a/src/vm/modules/registry.cpp
+++ b/src/vm/modules/registry.cpp
@@ -184,7 +184,7 @@ void ModuleRegistry::resolve_module(Context& ctx, Handle<Module> module) {
         case Init: {
             current_init = frame.module_->initializer();
             if (!current_init->is_null()) {
-                init_result = ctx.run_init(current_init, {});
+                init_result = ctx.run_module_init(current_init);
                 if (init_result->is_error()) {
                     TIRO_ERROR("module initialization of '{}' failed: {}",
                         frame.module_->name().view(), to_string(init_result->unchecked_error()));
-- 
2.43.0


From 730b4dc7d1a4be0ea15436ddb00db3525fd04fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:58 +0000
Subject: [PATCH 32/42] fix: allow the maximum number of locals in resumable
 frames

---
 src/vm/objects/coroutine_stack.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/objects/coroutine_stack.cpp b/src/vm/objects/coroutine_stack.cpp
index 1c73bb7..a425403 100644
--- a/src/vm/objects/coroutine_stack.cpp
+++ b/src/vm/objects/coroutine_stack.cpp
@@ -315,7 +315,7 @@ CoroutineStack::push_frame(u8 flags, u32 argc, u32 locals, Params&&... additiona
 void* CoroutineStack::allocate_frame(u32 frame_size, u32 locals) {
     Layout* data = layout();
     TIRO_DEBUG_ASSERT(data->top <= data->end, "invalid stack top");
-    TIRO_DEBUG_ASSERT(locals < max_locals, "too many locals");
+    TIRO_DEBUG_ASSERT(locals <= max_locals, "too many locals");
     TIRO_DEBUG_ASSERT(locals <= (std::numeric_limits<u32>::max() - frame_size) / sizeof(Value),
         "integer overflow in frame allocation");
 
-- 
2.43.0


From c2b7415933c4eba7310767d25f53d1174330061a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:58 +0000
Subject: [PATCH 33/42] fix: allow additional arguments when calling
 catch_panic

---
 src/vm/interpreter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/interpreter.cpp b/src/vm/interpreter.cpp
index c8759bf..58a8365 100644
--- a/src/vm/interpreter.cpp
+++ b/src/vm/interpreter.cpp
@@ -1091,7 +1091,7 @@ void Interpreter::run_frame(Handle<Coroutine> coro, NotNull<CatchFrame*> frame)
     TIRO_DEBUG_ASSERT(frame->type == FrameType::Catch, "expected a catch frame");
     TIRO_DEBUG_ASSERT(
         coro->state() == CoroutineState::Running, "the coroutine must be marked as running");
-    TIRO_DEBUG_ASSERT(frame->argc == 1, "expected a single argument");
+    TIRO_DEBUG_ASSERT(frame->argc >= 1, "expected at least one argument");
 
     // Fresh frame.
     if ((frame->flags & FRAME_CATCH_STARTED) == 0) {
-- 
2.43.0


From 2f8f9b8374b62c2c8744956d4905d3f939625f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:19 +0000
Subject: [PATCH 34/42] fix: do not use invalidated references when lifting phi
 functions to cssa form

---
 src/compiler/ir_passes/construct_cssa.cpp | 25 +++++++++++++----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/compiler/ir_passes/construct_cssa.cpp b/src/compiler/ir_passes/construct_cssa.cpp
index 85e80d8..2e4fc19 100644
--- a/src/compiler/ir_passes/construct_cssa.cpp
+++ b/src/compiler/ir_passes/construct_cssa.cpp
@@ -44,18 +44,21 @@ bool CSSABuilder::visit_block(BlockId block_id) {
     new_stmts.clear();
 
     // The loop terminates with "pos" pointing to the first non-phi stmt
-    // or the end of the stmt vector.
+    // or the end of the stmt vector. Note that new instructions may be appended to
+    // this block, if it is its own predecessor.
     auto& stmts = block->raw_insts();
-    auto pos = stmts.begin();
-    auto end = stmts.end();
-    for (; pos != end; ++pos) {
-        if (!is_phi_define(func_, *pos))
+    size_t pos = 0;
+    for (; pos != stmts.size(); ++pos) {
+        if (!is_phi_define(func_, stmts[pos]))
             break; // Phi nodes cluster at the start
 
-        changed |= lift_phi(block, *pos, new_stmts);
+        InstId phi_def = stmts[pos];
+        changed |= lift_phi(block, phi_def, new_stmts);
+        stmts[pos] = phi_def;
     }
 
-    stmts.insert(pos, new_stmts.begin(), new_stmts.end());
+    stmts.insert(
+        stmts.begin() + static_cast<std::ptrdiff_t>(pos), new_stmts.begin(), new_stmts.end());
     return changed;
 }
 
@@ -63,11 +66,11 @@ bool CSSABuilder::lift_phi(
     NotNull<EntityPtr<Block>> block, InstId& phi_def, std::vector<InstId>& new_stmts) {
     const auto original_inst = phi_def;
 
-    auto& original_value = func_[original_inst].value();
-    if (original_value.type() != ValueType::Phi)
+    if (func_[original_inst].value().type() != ValueType::Phi)
         return false;
 
-    auto& original_phi = original_value.as_phi();
+    // Must be a copy: references to instructions are invalidated when new instructions are created below.
+    auto original_phi = func_[original_inst].value().as_phi();
     TIRO_DEBUG_ASSERT(original_phi.operand_count(func_) == block->predecessor_count(),
         "Argument mismatch between the number of phi arguments and the number "
         "of predecessors.");
@@ -91,7 +94,7 @@ bool CSSABuilder::lift_phi(
     // The original instruction is defined as an alias after the block of phi nodes.
     // This approach has the advantage that we do not have to update any usages that refer
     // to the original instruction.
-    auto new_inst = func_.make(Inst(std::move(original_value)));
+    auto new_inst = func_.make(Inst(Value(original_phi)));
     phi_def = new_inst;
     func_[original_inst].value(Value::make_alias(new_inst));
     new_stmts.push_back(original_inst);
-- 
2.43.0


From 46d35ddef09459617754b5cd2d01390b68c012d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:39 +0000
Subject: [PATCH 35/42] fix: check the handles passed to tiro::make_module

---
 include/tiropp/objects.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/tiropp/objects.hpp b/include/tiropp/objects.hpp
index 62923ac..526b863 100644
--- a/include/tiropp/objects.hpp
+++ b/include/tiropp/objects.hpp
@@ -901,6 +901,7 @@ inline module make_module(
     const size_t exports_size = exports.size();
     std::vector<tiro_module_member_t> raw_exports(exports_size);
     for (size_t i = 0; i < exports_size; ++i) {
+        detail::check_handles(v.raw_vm(), exports[i].second);
         raw_exports[i].name = detail::to_raw(exports[i].first);
         raw_exports[i].value = exports[i].second.raw_handle();
     }
-- 
2.43.0


From 9845ba7e8db59d1f0fab19a556e069051c21d7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:53 +0000
Subject: [PATCH 36/42] fix: do not free the callback twice when
 tiro::coroutine::set_callback fails

---
 include/tiropp/objects.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tiropp/objects.hpp b/include/tiropp/objects.hpp
index 526b863..5d9c27a 100644
--- a/include/tiropp/objects.hpp
+++ b/include/tiropp/objects.hpp
@@ -809,10 +809,10 @@ public:
         auto wrapper = std::make_unique<wrapper_type>(
             in_place_t(), std::forward<Callback>(on_complete));
 
+        // Ownership of the wrapper is always passed to the called function, which invokes `cleanup` on errors.
         detail::check_handles(raw_vm(), *this);
         tiro_coroutine_set_callback(raw_vm(), raw_handle(), &wrapper_type::invoke,
-            &wrapper_type::cleanup, wrapper.get(), error_adapter());
-        wrapper.release();
+            &wrapper_type::cleanup, wrapper.release(), error_adapter());
     }
 
     /// Starts this coroutine's execution.
-- 
2.43.0


From 1f5229bc1e27526b3d31d99c0637b5354545723f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:35 +0000
Subject: [PATCH 37/42] fix: tiro_run splits the names of input files at commas

---
 src/run/main.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/run/main.cpp b/src/run/main.cpp
index d14d876..2c102da 100644
--- a/src/run/main.cpp
+++ b/src/run/main.cpp
@@ -1,3 +1,5 @@
+// File names must not be split at commas.
+#define CXXOPTS_VECTOR_DELIMITER '\0'
 #include "cxxopts.hpp"
 #include "fmt/format.h"
 #include "tiropp/api.hpp"
-- 
2.43.0


From db982e4c6c88dbc25500de6721fa151cdd0b5827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:35 +0000
Subject: [PATCH 38/42] fix: tiro_run cannot read input files that have no size
 (pipes, devices)

---
 src/run/main.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/run/main.cpp b/src/run/main.cpp
index 2c102da..e6f7daf 100644
--- a/src/run/main.cpp
+++ b/src/run/main.cpp
@@ -259,11 +259,15 @@ std::string read_file_contents(const char* path) {
     // Use the file size as a hint for the required memory (the file size might change while we're reading it).
     std::string result;
     {
-        auto size = std::filesystem::file_size(path);
-        if (size > result.max_size()) {
-            throw std::runtime_error("file is too large");
+        // Pipes and devices have no size.
+        std::error_code ec;
+        auto size = std::filesystem::file_size(path, ec);
+        if (!ec) {
+            if (size > result.max_size()) {
+                throw std::runtime_error("file is too large");
+            }
+            result.reserve(size);
         }
-        result.reserve(size);
     }
 
     // Read file chunk by chunk.
-- 
2.43.0


From 86448c1b1921177946fd53513898a9726faa2b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:21 +0000
Subject: [PATCH 39/42] fix: a method applied to an object of another type must
 panic

'std.Array.size(5)' raised an internal error that left the virtual machine
through the interpreter instead of a panic that the program can handle.
---
 src/vm/objects/array.cpp      |  6 +++---
 src/vm/objects/buffer.cpp     |  3 ++-
 src/vm/objects/class.cpp      |  3 ++-
 src/vm/objects/coroutine.cpp  |  9 +++++----
 src/vm/objects/exception.cpp  |  4 ++--
 src/vm/objects/hash_table.cpp | 12 ++++++------
 src/vm/objects/native.hpp     |  4 ++--
 src/vm/objects/result.cpp     | 11 ++++++-----
 src/vm/objects/set.cpp        | 10 +++++-----
 src/vm/objects/string.cpp     | 34 +++++++++++++++++-----------------
 src/vm/objects/tuple.cpp      |  3 ++-
 11 files changed, 52 insertions(+), 47 deletions(-)

diff --git a/src/vm/objects/array.cpp b/src/vm/objects/array.cpp
index 9c1f21f..3f71341 100644
--- a/src/vm/objects/array.cpp
+++ b/src/vm/objects/array.cpp
@@ -153,18 +153,18 @@ std::optional<Value> ArrayIterator::next() {
 }
 
 static void array_size_impl(SyncFrameContext& frame) {
-    auto array = check_instance<Array>(frame);
+    TIRO_FRAME_TRY(array, check_instance<Array>(frame));
     frame.return_value(frame.ctx().get_integer(static_cast<i64>(array->size())));
 }
 
 static void array_append_impl(SyncFrameContext& frame) {
-    auto array = check_instance<Array>(frame);
+    TIRO_FRAME_TRY(array, check_instance<Array>(frame));
     auto value = frame.arg(1);
     TIRO_FRAME_TRY_VOID(array->append(frame.ctx(), value));
 }
 
 static void array_clear_impl(SyncFrameContext& frame) {
-    auto array = check_instance<Array>(frame);
+    TIRO_FRAME_TRY(array, check_instance<Array>(frame));
     array->clear();
 }
 
diff --git a/src/vm/objects/buffer.cpp b/src/vm/objects/buffer.cpp
index d93c0b2..0f1c716 100644
--- a/src/vm/objects/buffer.cpp
+++ b/src/vm/objects/buffer.cpp
@@ -3,6 +3,7 @@
 #include "vm/context.hpp"
 #include "vm/math.hpp"
 #include "vm/object_support/factory.hpp"
+#include "vm/error_utils.hpp"
 #include "vm/object_support/type_desc.hpp"
 
 namespace tiro::vm {
@@ -56,7 +57,7 @@ Buffer Buffer::make_impl(Context& ctx, size_t total_size, Init&& init) {
 }
 
 static void buffer_size_impl(SyncFrameContext& frame) {
-    auto buffer = check_instance<Buffer>(frame);
+    TIRO_FRAME_TRY(buffer, check_instance<Buffer>(frame));
     i64 size = static_cast<i64>(buffer->size());
     frame.return_value(frame.ctx().get_integer(size));
 }
diff --git a/src/vm/objects/class.cpp b/src/vm/objects/class.cpp
index 90aefd5..c7a7557 100644
--- a/src/vm/objects/class.cpp
+++ b/src/vm/objects/class.cpp
@@ -4,6 +4,7 @@
 #include "vm/handles/scope.hpp"
 #include "vm/math.hpp"
 #include "vm/object_support/factory.hpp"
+#include "vm/error_utils.hpp"
 #include "vm/object_support/type_desc.hpp"
 #include "vm/objects/array.hpp"
 #include "vm/objects/hash_table.hpp"
@@ -67,7 +68,7 @@ std::optional<Value> Type::find_member(Handle<Symbol> name) {
 }
 
 static void class_name_impl(SyncFrameContext& frame) {
-    auto type = check_instance<Type>(frame);
+    TIRO_FRAME_TRY(type, check_instance<Type>(frame));
     frame.return_value(type->name());
 }
 
diff --git a/src/vm/objects/coroutine.cpp b/src/vm/objects/coroutine.cpp
index 9cb66de..408258f 100644
--- a/src/vm/objects/coroutine.cpp
+++ b/src/vm/objects/coroutine.cpp
@@ -2,6 +2,7 @@
 
 #include "vm/context.hpp"
 #include "vm/object_support/factory.hpp"
+#include "vm/error_utils.hpp"
 #include "vm/object_support/type_desc.hpp"
 #include "vm/objects/result.hpp"
 
@@ -164,7 +165,7 @@ bool CoroutineToken::resume(Context& ctx, Handle<CoroutineToken> token) {
 }
 
 static void coroutine_name_impl(SyncFrameContext& frame) {
-    auto coroutine = check_instance<Coroutine>(frame);
+    TIRO_FRAME_TRY(coroutine, check_instance<Coroutine>(frame));
     frame.return_value(coroutine->name());
 }
 
@@ -175,17 +176,17 @@ static const FunctionDesc coroutine_methods[] = {
 const TypeDesc coroutine_type_desc{"Coroutine"sv, coroutine_methods};
 
 static void coroutine_token_coroutine_impl(SyncFrameContext& frame) {
-    auto token = check_instance<CoroutineToken>(frame);
+    TIRO_FRAME_TRY(token, check_instance<CoroutineToken>(frame));
     frame.return_value(token->coroutine());
 }
 
 static void coroutine_token_valid_impl(SyncFrameContext& frame) {
-    auto token = check_instance<CoroutineToken>(frame);
+    TIRO_FRAME_TRY(token, check_instance<CoroutineToken>(frame));
     frame.return_value(frame.ctx().get_boolean(token->valid()));
 }
 
 static void coroutine_token_resume_impl(SyncFrameContext& frame) {
-    auto token = check_instance<CoroutineToken>(frame);
+    TIRO_FRAME_TRY(token, check_instance<CoroutineToken>(frame));
     bool success = CoroutineToken::resume(frame.ctx(), token);
     frame.return_value(frame.ctx().get_boolean(success));
 }
diff --git a/src/vm/objects/exception.cpp b/src/vm/objects/exception.cpp
index ffaa399..3a46647 100644
--- a/src/vm/objects/exception.cpp
+++ b/src/vm/objects/exception.cpp
@@ -99,12 +99,12 @@ Exception vformat_exception_impl(Context& ctx, std::string_view format, fmt::for
 }
 
 static void exception_message_impl(SyncFrameContext& frame) {
-    auto ex = check_instance<Exception>(frame);
+    TIRO_FRAME_TRY(ex, check_instance<Exception>(frame));
     frame.return_value(ex->message());
 }
 
 static void exception_trace_impl(SyncFrameContext& frame) {
-    auto ex = check_instance<Exception>(frame);
+    TIRO_FRAME_TRY(ex, check_instance<Exception>(frame));
     frame.return_value(ex->trace());
 }
 
diff --git a/src/vm/objects/hash_table.cpp b/src/vm/objects/hash_table.cpp
index 6dd87d2..af845de 100644
--- a/src/vm/objects/hash_table.cpp
+++ b/src/vm/objects/hash_table.cpp
@@ -876,34 +876,34 @@ Value HashTableValueIterator::return_value(
 }
 
 static void hash_table_size_impl(SyncFrameContext& frame) {
-    auto table = check_instance<HashTable>(frame);
+    TIRO_FRAME_TRY(table, check_instance<HashTable>(frame));
     i64 size = static_cast<i64>(table->size());
     frame.return_value(frame.ctx().get_integer(size));
 }
 
 static void hash_table_contains_impl(SyncFrameContext& frame) {
-    auto table = check_instance<HashTable>(frame);
+    TIRO_FRAME_TRY(table, check_instance<HashTable>(frame));
     bool result = table->contains(*frame.arg(1));
     frame.return_value(frame.ctx().get_boolean(result));
 }
 
 static void hash_table_keys_impl(SyncFrameContext& frame) {
-    auto table = check_instance<HashTable>(frame);
+    TIRO_FRAME_TRY(table, check_instance<HashTable>(frame));
     frame.return_value(HashTableKeyView::make(frame.ctx(), table));
 }
 
 static void hash_table_values_impl(SyncFrameContext& frame) {
-    auto table = check_instance<HashTable>(frame);
+    TIRO_FRAME_TRY(table, check_instance<HashTable>(frame));
     frame.return_value(HashTableValueView::make(frame.ctx(), table));
 }
 
 static void hash_table_clear_impl(SyncFrameContext& frame) {
-    auto table = check_instance<HashTable>(frame);
+    TIRO_FRAME_TRY(table, check_instance<HashTable>(frame));
     table->clear();
 }
 
 static void hash_table_remove_impl(SyncFrameContext& frame) {
-    auto table = check_instance<HashTable>(frame);
+    TIRO_FRAME_TRY(table, check_instance<HashTable>(frame));
     table->remove(*frame.arg(1));
 }
 
diff --git a/src/vm/objects/native.hpp b/src/vm/objects/native.hpp
index 80b9560..dd9f57d 100644
--- a/src/vm/objects/native.hpp
+++ b/src/vm/objects/native.hpp
@@ -520,12 +520,12 @@ private:
 };
 
 template<typename T>
-Handle<T> check_instance(SyncFrameContext& frame) {
+Fallible<Handle<T>> check_instance(SyncFrameContext& frame) {
     Handle<Value> value = frame.arg(0);
     if (auto instance = value.try_cast<T>()) {
         return instance.handle();
     }
-    TIRO_ERROR("`this` is not a {}", to_string(TypeToTag<T>));
+    return TIRO_FORMAT_EXCEPTION(frame.ctx(), "`this` is not a {}", to_string(TypeToTag<T>));
 }
 
 class NativeObject final : public HeapValue {
diff --git a/src/vm/objects/result.cpp b/src/vm/objects/result.cpp
index 5e2c7af..edeb43e 100644
--- a/src/vm/objects/result.cpp
+++ b/src/vm/objects/result.cpp
@@ -2,6 +2,7 @@
 
 #include "vm/math.hpp"
 #include "vm/object_support/factory.hpp"
+#include "vm/error_utils.hpp"
 #include "vm/object_support/type_desc.hpp"
 #include "vm/objects/exception.hpp"
 #include "vm/objects/primitives.hpp"
@@ -67,7 +68,7 @@ Integer Result::get_which() {
 }
 
 static void result_type_impl(SyncFrameContext& frame) {
-    auto result = check_instance<Result>(frame);
+    TIRO_FRAME_TRY(result, check_instance<Result>(frame));
     switch (result->which()) {
     case Result::Success:
         frame.return_value(frame.ctx().get_symbol("success"));
@@ -79,17 +80,17 @@ static void result_type_impl(SyncFrameContext& frame) {
 }
 
 static void result_is_success_impl(SyncFrameContext& frame) {
-    auto result = check_instance<Result>(frame);
+    TIRO_FRAME_TRY(result, check_instance<Result>(frame));
     frame.return_value(frame.ctx().get_boolean(result->is_success()));
 }
 
 static void result_is_error_impl(SyncFrameContext& frame) {
-    auto result = check_instance<Result>(frame);
+    TIRO_FRAME_TRY(result, check_instance<Result>(frame));
     frame.return_value(frame.ctx().get_boolean(result->is_error()));
 }
 
 static void result_value_impl(SyncFrameContext& frame) {
-    auto result = check_instance<Result>(frame);
+    TIRO_FRAME_TRY(result, check_instance<Result>(frame));
     if (!result->is_success()) {
         return frame.panic(
             TIRO_FORMAT_EXCEPTION(frame.ctx(), "cannot access value on failure result"));
@@ -98,7 +99,7 @@ static void result_value_impl(SyncFrameContext& frame) {
 }
 
 static void result_error_impl(SyncFrameContext& frame) {
-    auto result = check_instance<Result>(frame);
+    TIRO_FRAME_TRY(result, check_instance<Result>(frame));
     if (!result->is_error()) {
         return frame.panic(
             TIRO_FORMAT_EXCEPTION(frame.ctx(), "cannot access reason on successful result"));
diff --git a/src/vm/objects/set.cpp b/src/vm/objects/set.cpp
index 44f5c2a..4667fc6 100644
--- a/src/vm/objects/set.cpp
+++ b/src/vm/objects/set.cpp
@@ -78,30 +78,30 @@ std::optional<Value> SetIterator::next(Context& ctx) {
 }
 
 static void set_size_impl(SyncFrameContext& frame) {
-    auto set = check_instance<Set>(frame);
+    TIRO_FRAME_TRY(set, check_instance<Set>(frame));
     i64 size = static_cast<i64>(set->size());
     frame.return_value(frame.ctx().get_integer(size));
 }
 
 static void set_contains_impl(SyncFrameContext& frame) {
-    auto set = check_instance<Set>(frame);
+    TIRO_FRAME_TRY(set, check_instance<Set>(frame));
     bool result = set->contains(*frame.arg(1));
     frame.return_value(frame.ctx().get_boolean(result));
 }
 
 static void set_clear_impl(SyncFrameContext& frame) {
-    auto set = check_instance<Set>(frame);
+    TIRO_FRAME_TRY(set, check_instance<Set>(frame));
     set->clear();
 }
 
 static void set_insert_impl(SyncFrameContext& frame) {
-    auto set = check_instance<Set>(frame);
+    TIRO_FRAME_TRY(set, check_instance<Set>(frame));
     TIRO_FRAME_TRY(inserted, set->insert(frame.ctx(), frame.arg(1)));
     frame.return_value(frame.ctx().get_boolean(inserted));
 }
 
 static void set_remove_impl(SyncFrameContext& frame) {
-    auto set = check_instance<Set>(frame);
+    TIRO_FRAME_TRY(set, check_instance<Set>(frame));
     set->remove(*frame.arg(1));
 }
 
diff --git a/src/vm/objects/string.cpp b/src/vm/objects/string.cpp
index 698946a..2b93c7e 100644
--- a/src/vm/objects/string.cpp
+++ b/src/vm/objects/string.cpp
@@ -421,34 +421,34 @@ StringLike::Which StringLike::which() {
 
 static void string_contains_impl(SyncFrameContext& frame) {
     auto& ctx = frame.ctx();
-    auto string = check_instance<String>(frame);
+    TIRO_FRAME_TRY(string, check_instance<String>(frame));
     TIRO_FRAME_TRY(needle, require_string_like(ctx, "String.contains", "str", frame.arg(1)));
     bool found = str_contains(string->view(), needle->view());
     frame.return_value(ctx.get_boolean(found));
 }
 
 static void string_size_impl(SyncFrameContext& frame) {
-    auto string = check_instance<String>(frame);
+    TIRO_FRAME_TRY(string, check_instance<String>(frame));
     frame.return_value(frame.ctx().get_integer(string->size()));
 }
 
 static void string_slice_first_impl(SyncFrameContext& frame) {
     auto& ctx = frame.ctx();
-    auto string = check_instance<String>(frame);
+    TIRO_FRAME_TRY(string, check_instance<String>(frame));
     TIRO_FRAME_TRY(offset, slice_arg(ctx, "String.slice_first", "offset", frame.arg(1)));
     frame.return_value(string->slice_first(frame.ctx(), offset));
 }
 
 static void string_slice_last_impl(SyncFrameContext& frame) {
     auto& ctx = frame.ctx();
-    auto string = check_instance<String>(frame);
+    TIRO_FRAME_TRY(string, check_instance<String>(frame));
     TIRO_FRAME_TRY(offset, slice_arg(ctx, "String.slice_last", "offset", frame.arg(1)));
     frame.return_value(string->slice_last(frame.ctx(), offset));
 }
 
 static void string_slice_impl(SyncFrameContext& frame) {
     auto& ctx = frame.ctx();
-    auto string = check_instance<String>(frame);
+    TIRO_FRAME_TRY(string, check_instance<String>(frame));
     TIRO_FRAME_TRY(offset, slice_arg(ctx, "String.slice", "offset", frame.arg(1)));
     TIRO_FRAME_TRY(size, slice_arg(ctx, "String.slice", "size", frame.arg(2)));
     frame.return_value(string->slice(frame.ctx(), offset, size));
@@ -466,41 +466,41 @@ constexpr TypeDesc string_type_desc{"String"sv, string_methods};
 
 static void string_slice_contains_impl(SyncFrameContext& frame) {
     auto& ctx = frame.ctx();
-    auto slice = check_instance<StringSlice>(frame);
+    TIRO_FRAME_TRY(slice, check_instance<StringSlice>(frame));
     TIRO_FRAME_TRY(needle, require_string_like(ctx, "StringSlice.contains", "str", frame.arg(1)));
     bool found = str_contains(slice->view(), needle->view());
     frame.return_value(ctx.get_boolean(found));
 }
 
 static void string_slice_size_impl(SyncFrameContext& frame) {
-    auto slice = check_instance<StringSlice>(frame);
+    TIRO_FRAME_TRY(slice, check_instance<StringSlice>(frame));
     frame.return_value(frame.ctx().get_integer(slice->size()));
 }
 
 static void string_slice_slice_first_impl(SyncFrameContext& frame) {
     auto& ctx = frame.ctx();
-    auto slice = check_instance<StringSlice>(frame);
+    TIRO_FRAME_TRY(slice, check_instance<StringSlice>(frame));
     TIRO_FRAME_TRY(offset, slice_arg(ctx, "StringSlice.slice_first", "offset", frame.arg(1)));
     frame.return_value(slice->slice_first(frame.ctx(), offset));
 }
 
 static void string_slice_slice_last_impl(SyncFrameContext& frame) {
     auto& ctx = frame.ctx();
-    auto slice = check_instance<StringSlice>(frame);
+    TIRO_FRAME_TRY(slice, check_instance<StringSlice>(frame));
     TIRO_FRAME_TRY(offset, slice_arg(ctx, "StringSlice.slice_last", "offset", frame.arg(1)));
     frame.return_value(slice->slice_last(frame.ctx(), offset));
 }
 
 static void string_slice_slice_impl(SyncFrameContext& frame) {
     auto& ctx = frame.ctx();
-    auto slice = check_instance<StringSlice>(frame);
+    TIRO_FRAME_TRY(slice, check_instance<StringSlice>(frame));
     TIRO_FRAME_TRY(offset, slice_arg(ctx, "StringSlice.slice", "offset", frame.arg(1)));
     TIRO_FRAME_TRY(size, slice_arg(ctx, "StringSlice.slice", "size", frame.arg(2)));
     frame.return_value(slice->slice(frame.ctx(), offset, size));
 }
 
 static void string_slice_to_string_impl(SyncFrameContext& frame) {
-    auto slice = check_instance<StringSlice>(frame);
+    TIRO_FRAME_TRY(slice, check_instance<StringSlice>(frame));
     frame.return_value(slice->to_string(frame.ctx()));
 }
 
@@ -516,7 +516,7 @@ static constexpr FunctionDesc string_slice_methods[] = {
 constexpr TypeDesc string_slice_type_desc{"StringSlice"sv, string_slice_methods};
 
 static void string_builder_append_impl(SyncFrameContext& frame) {
-    auto builder = check_instance<StringBuilder>(frame);
+    TIRO_FRAME_TRY(builder, check_instance<StringBuilder>(frame));
     for (size_t i = 1; i < frame.arg_count(); ++i) {
         Handle<Value> arg = frame.arg(i);
         to_string(frame.ctx(), builder, arg);
@@ -525,7 +525,7 @@ static void string_builder_append_impl(SyncFrameContext& frame) {
 
 static void string_builder_append_byte_impl(SyncFrameContext& frame) {
     Context& ctx = frame.ctx();
-    auto builder = check_instance<StringBuilder>(frame);
+    TIRO_FRAME_TRY(builder, check_instance<StringBuilder>(frame));
     Handle arg = frame.arg(1);
 
     byte b;
@@ -540,26 +540,26 @@ static void string_builder_append_byte_impl(SyncFrameContext& frame) {
 }
 
 static void string_builder_clear_impl(SyncFrameContext& frame) {
-    auto builder = check_instance<StringBuilder>(frame);
+    TIRO_FRAME_TRY(builder, check_instance<StringBuilder>(frame));
     builder->clear();
 }
 
 static void string_builder_contains_impl(SyncFrameContext& frame) {
     auto& ctx = frame.ctx();
-    auto builder = check_instance<StringBuilder>(frame);
+    TIRO_FRAME_TRY(builder, check_instance<StringBuilder>(frame));
     TIRO_FRAME_TRY(needle, require_string_like(ctx, "StringBuilder.contains", "str", frame.arg(1)));
     bool found = str_contains(builder->view(), needle->view());
     frame.return_value(frame.ctx().get_boolean(found));
 }
 
 static void string_builder_size_impl(SyncFrameContext& frame) {
-    auto builder = check_instance<StringBuilder>(frame);
+    TIRO_FRAME_TRY(builder, check_instance<StringBuilder>(frame));
     size_t size = static_cast<size_t>(builder->size());
     frame.return_value(frame.ctx().get_integer(size));
 }
 
 static void string_builder_to_string_impl(SyncFrameContext& frame) {
-    auto builder = check_instance<StringBuilder>(frame);
+    TIRO_FRAME_TRY(builder, check_instance<StringBuilder>(frame));
     frame.return_value(builder->to_string(frame.ctx()));
 }
 
diff --git a/src/vm/objects/tuple.cpp b/src/vm/objects/tuple.cpp
index fd68032..02c0df2 100644
--- a/src/vm/objects/tuple.cpp
+++ b/src/vm/objects/tuple.cpp
@@ -1,6 +1,7 @@
 #include "vm/objects/tuple.hpp"
 
 #include "vm/object_support/factory.hpp"
+#include "vm/error_utils.hpp"
 #include "vm/object_support/type_desc.hpp"
 
 namespace tiro::vm {
@@ -98,7 +99,7 @@ std::optional<Value> TupleIterator::next() {
 }
 
 static void tuple_size_impl(SyncFrameContext& frame) {
-    auto tuple = check_instance<Tuple>(frame);
+    TIRO_FRAME_TRY(tuple, check_instance<Tuple>(frame));
     frame.return_value(frame.ctx().get_integer(static_cast<i64>(tuple->size())));
 }
 
-- 
2.43.0


From 3773e40f46aaa41a6a3f5459d4253fb7e2c6e882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:47 +0000
Subject: [PATCH 40/42] fix: reading a module variable that was never
 initialized is a panic and not an internal error

---
 src/vm/interpreter.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/vm/interpreter.cpp b/src/vm/interpreter.cpp
index 58a8365..a575fd2 100644
--- a/src/vm/interpreter.cpp
+++ b/src/vm/interpreter.cpp
@@ -276,7 +276,14 @@ void BytecodeInterpreter::run() {
         case BytecodeOp::LoadModule: {
             const u32 source = read_u32();
             auto target = read_local();
-            target.set(get_member(source));
+            Value member = get_member(source);
+            if (TIRO_UNLIKELY(member.is<Undefined>())) {
+                // The variable has not been initialized (yet).
+                return unwind(TIRO_FORMAT_EXCEPTION(
+                    ctx_, "module variable at index {} is undefined", source));
+            }
+
+            target.set(member);
             break;
         }
         case BytecodeOp::StoreModule: {
@@ -845,12 +852,7 @@ Value BytecodeInterpreter::get_member(u32 index) {
     Tuple members = mod.members();
     TIRO_DEBUG_ASSERT(index < members.size(), "module member index out of bounds");
 
-    Value member = members.unchecked_get(index);
-
-    // TODO It would be great to have static verification for this.
-    // Reading from an undefined variable is only possible when the codegen is buggy.
-    TIRO_CHECK(!member.is<Undefined>(), "module member is undefined");
-    return member;
+    return members.unchecked_get(index);
 }
 
 void BytecodeInterpreter::set_member(u32 index, Value value) {
-- 
2.43.0


From 94afc508839a14cee490d153a40a3afbc4b74056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:01 +0000
Subject: [PATCH 41/42] fix: local functions can be referenced through their
 name

---
 src/compiler/ir_gen/compile_expr.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/compiler/ir_gen/compile_expr.cpp b/src/compiler/ir_gen/compile_expr.cpp
index e41c37a..343301b 100644
--- a/src/compiler/ir_gen/compile_expr.cpp
+++ b/src/compiler/ir_gen/compile_expr.cpp
@@ -528,13 +528,21 @@ InstResult ExprCompiler::visit_func_expr(NotNull<AstFuncExpr*> expr, CurrentBloc
     ModuleMemberId func_id = ctx().module_gen().add_function(decl, envs, env);
 
     // Functions at module level never have an environment, even if the module initializer uses one.
-    if (env && !ctx().module_gen().is_static(symbols().get_decl(decl->id()))) {
-        auto env_id = bb.compile_env(env);
-        return bb.compile_value(Value::make_make_closure(env_id, func_id));
-    }
+    const auto symbol_id = symbols().get_decl(decl->id());
+    const bool is_static = ctx().module_gen().is_static(symbol_id);
+    const auto func_inst = [&] {
+        if (env && !is_static) {
+            auto env_id = bb.compile_env(env);
+            return bb.compile_value(Value::make_make_closure(env_id, func_id));
+        }
+
+        auto lvalue = LValue::make_module(func_id);
+        return bb.compile_value(Value::make_read(lvalue));
+    }();
 
-    auto lvalue = LValue::make_module(func_id);
-    auto func_inst = bb.compile_value(Value::make_read(lvalue));
+    // The function can be referenced through its name (for example by itself).
+    if (!is_static && decl->name())
+        bb.compile_assign(symbol_id, func_inst);
     return func_inst;
 }
 
-- 
2.43.0


From 97afaba455e008c81d70f1a22642bba075315888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:33:38 +0000
Subject: [PATCH 42/42] fix: a failed tiro_coroutine_set_callback loses the
 previous callback

---
 src/vm/context.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/vm/context.cpp b/src/vm/context.cpp
index 0150ba8..799e554 100644
--- a/src/vm/context.cpp
+++ b/src/vm/context.cpp
@@ -66,11 +66,7 @@ Coroutine Context::make_coroutine(Handle<Value> func, MaybeHandle<Tuple> args) {
 void Context::set_callback(Handle<Coroutine> coro, CoroutineCallback& on_complete) {
     Scope sc(*this);
 
-    Local existing = sc.local(coro->native_callback());
-    if (existing->has_value()) {
-        coro->native_callback({});
-    }
-
+    // The existing callback (if any) remains in place if the allocation fails.
     Local callback = sc.local(
         NativeObject::make(*this, &coroutine_callback_type, on_complete.size()));
     void* data = callback->data();
-- 
2.43.0

