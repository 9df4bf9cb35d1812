// RAII helpers around tiro's C API used by all engines.
#ifndef VERIF_TIRO_UTIL_HPP
#define VERIF_TIRO_UTIL_HPP

#include "pbt.hpp"

#include "tiro/api.h"

#include <string>
#include <string_view>
#include <vector>

namespace tu {

using pbt::f64;
using pbt::Fail;
using pbt::i64;
using pbt::sfmt;
using pbt::u64;

inline tiro_string_t ts(std::string_view s) { return {s.data(), s.size()}; }
inline std::string str(tiro_string_t s) { return s.length ? std::string(s.data, s.length) : std::string(); }

// Error out-parameter; ok() tells whether the call succeeded.
struct Err {
    tiro_error_t e = nullptr;
    Err() = default;
    Err(const Err&) = delete;
    Err& operator=(const Err&) = delete;
    ~Err() { reset(); }
    operator tiro_error_t*() { return &e; }
    void reset() {
        tiro_error_free(e);
        e = nullptr;
    }
    bool ok() const { return e == nullptr; }
    tiro_errc_t code() const { return tiro_error_errc(e); }
    std::string text() const {
        return std::string(tiro_error_name(e)) + ": " + tiro_error_message(e) + " [" + tiro_error_details(e) + "]";
    }
};

// throws Fail if the API call reported an error
struct Must {
    Err err;
    const char* what;
    explicit Must(const char* w)
        : what(w) {}
    operator tiro_error_t*() { return err; }
    ~Must() noexcept(false) {
        if (!err.ok() && !std::uncaught_exceptions())
            throw Fail{std::string("API call failed unexpectedly: ") + what + ": " + err.text()};
    }
};
#define MUST(vmcall) /* use as MUST(tiro_xyz(..., must)) */ \
    do { ::tu::Must must(#vmcall); vmcall; } while (0)

struct Diag {
    int severity;
    std::string file;
    uint32_t line, column;
    std::string text;
};

struct Source {
    std::string name, text;
};

struct Compiled {
    tiro_module_t module = nullptr;
    std::vector<Diag> diags;
    tiro_errc_t code = TIRO_OK;
    std::string details;
    std::string bytecode; // disassembly, if requested
    std::string ir, ast, cst;

    Compiled() = default;
    Compiled(const Compiled&) = delete;
    Compiled(Compiled&& o) noexcept { *this = std::move(o); }
    Compiled& operator=(Compiled&& o) noexcept {
        std::swap(module, o.module);
        diags = std::move(o.diags);
        code = o.code;
        details = std::move(o.details);
        bytecode = std::move(o.bytecode);
        ir = std::move(o.ir);
        ast = std::move(o.ast);
        cst = std::move(o.cst);
        return *this;
    }
    ~Compiled() { tiro_module_free(module); }
    bool ok() const { return code == TIRO_OK && module; }
    std::string errors() const {
        std::string r = details;
        for (auto& d : diags) r += sfmt("\n%s:%u:%u: %s", d.file.c_str(), d.line, d.column, d.text.c_str());
        return r;
    }
};

enum Attach { want_bytecode = 1, want_ir = 2, want_ast = 4, want_cst = 8 };

inline Compiled compile(std::string_view module, const std::vector<Source>& files, int attach = 0) {
    Compiled r;
    Err err;
    tiro_compiler_t c = tiro_compiler_new(ts(module), err);
    if (!err.ok()) {
        r.code = err.code();
        r.details = err.text();
        return r;
    }
    struct Guard {
        tiro_compiler_t c;
        ~Guard() { tiro_compiler_free(c); }
    } g{c};
    tiro_compiler_set_message_callback(
        c,
        [](const tiro_compiler_message_t* m, void* u) {
            ((Compiled*) u)->diags.push_back({(int) m->severity, str(m->file), m->line, m->column, str(m->text)});
            return true;
        },
        &r, err);
    auto req = [&](int flag, tiro_attachment_t a) {
        if (attach & flag) tiro_compiler_request_attachment(c, a, err);
    };
    req(want_bytecode, TIRO_ATTACHMENT_BYTECODE);
    req(want_ir, TIRO_ATTACHMENT_IR);
    req(want_ast, TIRO_ATTACHMENT_AST);
    req(want_cst, TIRO_ATTACHMENT_CST);
    for (auto& f : files)
        if (err.ok()) tiro_compiler_add_file(c, ts(f.name), ts(f.text), err);
    if (err.ok()) tiro_compiler_run(c, err);
    auto get = [&](int flag, tiro_attachment_t a, std::string& out) {
        if (!(attach & flag)) return;
        char* s = nullptr;
        Err e2;
        tiro_compiler_get_attachment(c, a, &s, e2);
        if (e2.ok() && s) out = s;
        free(s);
    };
    get(want_bytecode, TIRO_ATTACHMENT_BYTECODE, r.bytecode);
    get(want_ir, TIRO_ATTACHMENT_IR, r.ir);
    get(want_ast, TIRO_ATTACHMENT_AST, r.ast);
    get(want_cst, TIRO_ATTACHMENT_CST, r.cst);
    if (!err.ok()) {
        r.code = err.code();
        r.details = err.text();
        return r;
    }
    tiro_compiler_take_module(c, &r.module, err);
    if (!err.ok()) {
        r.code = err.code();
        r.details = err.text();
        return r;
    }
    return r;
}

inline Compiled compile(std::string_view module, std::string_view source, int attach = 0) {
    return compile(module, std::vector<Source>{{"main", std::string(source)}}, attach);
}

class Vm;

// A global handle
class H {
public:
    H() = default;
    explicit H(tiro_vm_t vm) {
        Must must("tiro_global_new");
        h_ = tiro_global_new(vm, must);
    }
    H(const H&) = delete;
    H(H&& o) noexcept { std::swap(h_, o.h_); }
    H& operator=(H&& o) noexcept {
        std::swap(h_, o.h_);
        return *this;
    }
    ~H() { tiro_global_free(h_); }
    operator tiro_handle_t() const { return h_; }
    void release() { h_ = nullptr; }
    void free() {
        tiro_global_free(h_);
        h_ = nullptr;
    }

private:
    tiro_handle_t h_ = nullptr;
};

struct CallResult {
    enum Kind { success, panic, not_completed, error } kind = error;
    H value;             // result value on success; exception on panic
    std::string message; // exception message / API error text
    tiro_errc_t code = TIRO_OK;
    bool ok() const { return kind == success; }
};

class Vm {
public:
    std::vector<std::string> log; // everything recorded by native functions
    std::string out;              // std.print
    std::function<void(Vm&, tiro_vm_t, tiro_sync_frame_t)> hook;
    std::function<void(Vm&, std::string_view)> on_print;
    void* user = nullptr;

    explicit Vm(size_t max_heap = 256u << 20, size_t page = 0, bool traces = false, bool with_std = true) {
        tiro_vm_settings_t s;
        tiro_vm_settings_init(&s);
        s.max_heap_size = max_heap;
        s.page_size = page;
        s.userdata = this;
        s.enable_panic_stack_trace = traces;
        s.print_stdout = [](tiro_string_t m, void* u) { 
            Vm& self = *(Vm*) u;
            self.out += str(m);
            if (self.on_print) self.on_print(self, {m.data, m.length});
        };
        Must must("tiro_vm_new");
        vm_ = tiro_vm_new(&s, must);
        if (with_std && vm_) tiro_vm_load_std(vm_, must);
    }
    Vm(const Vm&) = delete;
    ~Vm() { close(); }
    void close() {
        if (vm_) tiro_vm_free(vm_);
        vm_ = nullptr;
    }
    operator tiro_vm_t() const { return vm_; }
    static Vm& of(tiro_vm_t vm) { return *(Vm*) tiro_vm_userdata(vm); }

    H h() { return H(vm_); }
    H integer(i64 v) { H r(vm_); MUST(tiro_make_integer(vm_, v, r, must)); return r; }
    H flt(f64 v) { H r(vm_); MUST(tiro_make_float(vm_, v, r, must)); return r; }
    H boolean(bool v) { H r(vm_); MUST(tiro_make_boolean(vm_, v, r, must)); return r; }
    H string(std::string_view v) { H r(vm_); MUST(tiro_make_string(vm_, ts(v), r, must)); return r; }
    H null() { H r(vm_); tiro_make_null(vm_, r); return r; }
    H tuple(const std::vector<tiro_handle_t>& v) {
        H r(vm_);
        MUST(tiro_make_tuple(vm_, v.size(), r, must));
        for (size_t i = 0; i < v.size(); ++i) MUST(tiro_tuple_set(vm_, r, i, v[i], must));
        return r;
    }
    std::string text(tiro_handle_t s) {
        tiro_string_t v{nullptr, 0};
        MUST(tiro_string_value(vm_, s, &v, must));
        return str(v);
    }
    std::string to_text(tiro_handle_t v) {
        H r(vm_);
        MUST(tiro_value_to_string(vm_, v, r, must));
        return text(r);
    }

    H sync_function(std::string_view name, tiro_sync_function_t f, size_t argc, tiro_handle_t closure = nullptr) {
        H n = string(name), r(vm_);
        MUST(tiro_make_sync_function(vm_, n, f, argc, closure, r, must));
        return r;
    }

    // module from (name, value) pairs
    void load_native(std::string_view name, const std::vector<std::pair<std::string, tiro_handle_t>>& members) {
        std::vector<tiro_module_member_t> m;
        for (auto& [n, v] : members) m.push_back({ts(n), v});
        H r(vm_);
        MUST(tiro_make_module(vm_, ts(name), m.data(), m.size(), r, must));
        MUST(tiro_vm_load_module(vm_, r, must));
    }

    // like show, for values that may be huge, shared or cyclic
    std::string show_limited(tiro_handle_t v) {
        std::string s = show(v, 35);
        if (s.size() > 4000) s = s.substr(0, 4000) + "#" + std::to_string(std::hash<std::string>()(s));
        return s;
    }

    // module "env" with emit(string) and hook(...)
    void load_env() { load_env_with({}); }
    void load_env_with(const std::vector<std::pair<std::string, H>>& more) {
        H emit = sync_function("emit", [](tiro_vm_t vm, tiro_sync_frame_t f) {
            Vm& self = of(vm);
            Err e;
            H a(vm);
            tiro_sync_frame_arg(f, 0, a, e);
            self.log.push_back(tiro_value_kind(vm, a) == TIRO_KIND_STRING ? self.text(a) : "<" + self.show(a) + ">");
        }, 1);
        H hk = sync_function("hook", [](tiro_vm_t vm, tiro_sync_frame_t f) {
            Vm& self = of(vm);
            if (self.hook) self.hook(self, vm, f);
        }, 0);
        std::vector<std::pair<std::string, tiro_handle_t>> all{{"emit", emit}, {"hook", hk}};
        for (auto& [n, h] : more) all.emplace_back(n, h);
        load_native("env", all);
    }

    void load(const Compiled& c) {
        MUST(tiro_vm_load_bytecode(vm_, c.module, must));
    }

    H get_export(std::string_view module, std::string_view name) {
        H r(vm_);
        MUST(tiro_vm_get_export(vm_, ts(module), ts(name), r, must));
        return r;
    }

    // Runs the function in a new coroutine until nothing is ready any more.
    CallResult call(tiro_handle_t fn, const std::vector<tiro_handle_t>& args = {}) {
        H t = tuple(args), co(vm_);
        CallResult r;
        Err e;
        tiro_make_coroutine(vm_, fn, t, co, e);
        if (e.ok()) tiro_coroutine_start(vm_, co, e);
        if (e.ok()) run(e);
        if (!e.ok()) {
            r.kind = CallResult::error;
            r.code = e.code();
            r.message = e.text();
            return r;
        }
        return result_of(co);
    }
    void run(Err& e) {
        while (e.ok() && tiro_vm_has_ready(vm_)) tiro_vm_run_ready(vm_, e);
    }
    CallResult result_of(tiro_handle_t co) {
        CallResult r;
        r.value = H(vm_);
        if (!tiro_coroutine_completed(vm_, co)) {
            r.kind = CallResult::not_completed;
            return r;
        }
        H res(vm_);
        MUST(tiro_coroutine_result(vm_, co, res, must));
        if (tiro_result_is_success(vm_, res)) {
            r.kind = CallResult::success;
            MUST(tiro_result_value(vm_, res, r.value, must));
        } else {
            r.kind = CallResult::panic;
            MUST(tiro_result_error(vm_, res, r.value, must));
            if (tiro_value_kind(vm_, r.value) == TIRO_KIND_EXCEPTION) {
                H m(vm_);
                MUST(tiro_exception_message(vm_, r.value, m, must));
                r.message = text(m);
            }
        }
        return r;
    }
    CallResult call(std::string_view module, std::string_view name, const std::vector<tiro_handle_t>& args = {}) {
        H fn = get_export(module, name);
        return call(fn, args);
    }

    // structural description through the API
    std::string show(tiro_handle_t v, int depth = 0) {
        if (depth > 40) return "...";
        auto seq = [&](const char* open, const char* close, size_t n, auto get) {
            std::string r = open;
            for (size_t i = 0; i < n; ++i) {
                H x(vm_);
                get(i, x);
                if (i) r += ", ";
                r += show(x, depth + 1);
            }
            return r + close;
        };
        switch (tiro_value_kind(vm_, v)) {
        case TIRO_KIND_NULL: return "null";
        case TIRO_KIND_BOOLEAN: return tiro_boolean_value(vm_, v) ? "true" : "false";
        case TIRO_KIND_INTEGER: return sfmt("%lld", (long long) tiro_integer_value(vm_, v));
        case TIRO_KIND_FLOAT: return sfmt("%a", tiro_float_value(vm_, v));
        case TIRO_KIND_STRING: return "\"" + text(v) + "\"";
        case TIRO_KIND_TUPLE:
            return seq("(", ")", tiro_tuple_size(vm_, v), [&](size_t i, H& x) { MUST(tiro_tuple_get(vm_, v, i, x, must)); });
        case TIRO_KIND_ARRAY:
            return seq("[", "]", tiro_array_size(vm_, v), [&](size_t i, H& x) { MUST(tiro_array_get(vm_, v, i, x, must)); });
        case TIRO_KIND_RECORD: {
            H keys(vm_);
            MUST(tiro_record_keys(vm_, v, keys, must));
            return "rec" + seq("(", ")", tiro_array_size(vm_, keys), [&](size_t i, H& x) {
                H k(vm_);
                MUST(tiro_array_get(vm_, keys, i, k, must));
                MUST(tiro_record_get(vm_, v, k, x, must));
            });
        }
        case TIRO_KIND_BUFFER: {
            std::string r = "buf:";
            auto* d = tiro_buffer_data(vm_, v);
            for (size_t i = 0, n = tiro_buffer_size(vm_, v); i < n && i < 64; ++i) r += sfmt("%02x", d[i]);
            return r;
        }
        case TIRO_KIND_RESULT: {
            H x(vm_);
            if (tiro_result_is_success(vm_, v)) {
                MUST(tiro_result_value(vm_, v, x, must));
                return "ok(" + show(x, depth + 1) + ")";
            }
            MUST(tiro_result_error(vm_, v, x, must));
            return "err(" + show(x, depth + 1) + ")";
        }
        case TIRO_KIND_EXCEPTION: {
            H x(vm_);
            MUST(tiro_exception_message(vm_, v, x, must));
            return "exception";
        }
        default: return std::string("<") + tiro_kind_str(tiro_value_kind(vm_, v)) + ">";
        }
    }

private:
    tiro_vm_t vm_ = nullptr;
};

} // namespace tu
#endif
