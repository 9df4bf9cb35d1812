// C13: malformed bytecode is rejected before it can run, well-formed modules are accepted, encoding and decoding
// instructions are inverse and the disassembly shows every instruction.
#include "lang_run.hpp"
#include "bytecode_table.hpp"

#include "api/internal.hpp"
#include "bytecode/formatting.hpp"
#include "bytecode/module.hpp"
#include "bytecode/reader.hpp"
#include "common/format.hpp"

#include <algorithm>
#include <cmath>

using namespace tu;
using pbt::Case;
using pbt::Fail;
using pbt::Suite;
using pbt::Tape;
using bc::Ins;
using bc::Op;
using bc::u32;
using bc::u64;
using bc::u8;
using bc::i64;
using tiro::BytecodeFunction;
using tiro::BytecodeFunctionType;
using tiro::BytecodeLabel;
using tiro::BytecodeMember;
using tiro::BytecodeMemberId;
using tiro::BytecodeMemberType;
using tiro::BytecodeModule;
using tiro::BytecodeOffset;
using tiro::BytecodeReader;
using tiro::BytecodeReaderError;
using tiro::BytecodeWriter;

namespace {

constexpr u32 invalid = 0xffffffffu;
constexpr u32 max_locals = 1 << 14, max_container = 1 << 16; // limits of the loader

u32 edge_u32(Tape& t) {
    switch (t.below(6)) {
    case 0: return (u32) t.below(4);
    case 1: return (u32) t.below(300);
    case 2: return (u32) t.below(70000);
    case 3: return (u32) (1u << t.below(32)) - (u32) t.below(2);
    case 4: return 0xfffffffeu - (u32) t.below(3);
    default: return (u32) (t.raw() % 0xffffffffu);
    }
}

std::string show(const Ins& i) {
    std::string s = bc::info((u8) i.op)->name;
    for (u64 v : i.v) s += sfmt(" %llu", (unsigned long long) v);
    return s;
}

// ------------------------------------------------------------------------------------------------ round trip
std::string disassembly(const BytecodeFunction& f) {
    tiro::StringFormatStream s;
    tiro::format_function(f, s);
    return s.take_str();
}

bool same(const Ins& a, const Ins& b) { return a.op == b.op && a.v == b.v; }

void check_disassembly(Case& c, const std::string& text, const std::vector<Ins>& code, const std::vector<u32>& pos) {
    std::vector<std::string> lines;
    size_t p = text.find("Code:\n");
    if (p == std::string::npos) c.fail("no code in the disassembly:\n" + text);
    p += 6;
    while (p < text.size() && text[p] != '\n') {
        size_t e = text.find('\n', p);
        if (e == std::string::npos) e = text.size();
        lines.push_back(text.substr(p, e - p));
        p = e + 1;
    }
    if (lines.size() != code.size()) c.fail(sfmt("the disassembly shows %zu instead of %zu instructions:\n", lines.size(), code.size()) + text);
    for (size_t i = 0; i < code.size(); ++i) {
        auto& in = *bc::info((u8) code[i].op);
        std::vector<std::string> words;
        std::string w;
        for (char ch : lines[i] + " ")
            if (ch == ' ' || ch == ',') {
                if (!w.empty()) words.push_back(w);
                w.clear();
            } else
                w += ch;
        auto bad = [&](const char* what) { c.fail(sfmt("instruction %zu (%s) is shown as `%s`: wrong %s", i, show(code[i]).c_str(), lines[i].c_str(), what)); };
        if (words.empty() || words[0] != sfmt("%u:", pos[i])) bad("offset");
        if (words.size() < 2 || words[1] != in.name) bad("name");
        size_t at = 2;
        for (size_t k = 0; k < in.kinds.size(); ++k) {
            u64 v = code[i].v[k];
            std::string want;
            bool found = false;
            if (in.kinds[k] == bc::F64) {
                double d = bc::float_of(v);
                for (; at < words.size() && !found; ++at) {
                    char* end;
                    double r = strtod(words[at].c_str(), &end);
                    found = !*end && (r == d || (std::isnan(r) && std::isnan(d)));
                }
            } else {
                static const char* const prefix[] = {"l:", "p:", "m:", "o:", "", "", ""};
                want = prefix[in.kinds[k]] + (in.kinds[k] == bc::I64 ? std::to_string((long long) v) : std::to_string((unsigned long long) v));
                for (; at < words.size() && !found; ++at) found = words[at] == want;
            }
            if (!found) bad(in.fields[k]);
        }
    }
}

void roundtrip(Case& c) {
    Tape& t = c.t;
    size_t n = t.weighted({1, 8, 4}) ? 1 + t.below(t.chance(1, 4) ? 60 : 12) : 0;
    size_t label_count = t.below(5);
    std::vector<size_t> label_at(label_count); // instruction index
    for (auto& l : label_at) l = t.below(n + 1);
    std::vector<Ins> code;
    std::vector<bool> to_label;
    std::vector<int> handler_before(n + 1, -2); // -2 nothing, -1 none, else label
    for (size_t i = 0; i < n; ++i) {
        auto& in = bc::ops()[t.below(bc::ops().size())];
        Ins x{in.op, {}};
        bool lab = false;
        for (auto k : in.kinds) {
            if (k == bc::I64) x.v.push_back((u64) t.any_i64());
            else if (k == bc::F64) x.v.push_back(bc::bits_of(t.any_f64()));
            else if (k == bc::Offset && label_count && t.chance(3, 4)) x.v.push_back(t.below(label_count)), lab = true;
            else x.v.push_back(edge_u32(t));
        }
        code.push_back(x);
        to_label.push_back(lab);
        if (label_count && t.chance(1, 4)) handler_before[i] = t.chance(1, 4) ? -1 : (int) t.below(label_count);
    }
    if (label_count && t.chance(1, 4)) handler_before[n] = (int) t.below(label_count);
    std::string d;
    for (size_t i = 0; i < n; ++i) d += sfmt("%zu: ", i) + show(code[i]) + (to_label[i] ? " (label)" : "") + (handler_before[i] > -2 ? sfmt(" handler %d", handler_before[i]) : "") + "\n";
    for (size_t i = 0; i < label_count; ++i) d += sfmt("label %zu at %zu\n", i, label_at[i]);
    c.describe(d);

    BytecodeFunction f;
    std::vector<u32> pos;
    std::vector<std::pair<u32, u32>> want_refs; // instruction index, member
    std::vector<std::tuple<u32, tiro::BytecodeMemberId>> refs;
    {
        BytecodeWriter w(f);
        size_t i = 0;
        for (;; ++i) {
            // both orders of defining labels and starting handlers occur
            bool labels_first = t.chance(1, 2);
            for (int round = 0; round < 2; ++round) {
                if ((round == 0) == labels_first) {
                    for (size_t l = 0; l < label_count; ++l)
                        if (label_at[l] == i) w.define_label(BytecodeLabel((u32) l));
                } else if (handler_before[i] > -2)
                    w.start_handler(handler_before[i] < 0 ? BytecodeLabel() : BytecodeLabel((u32) handler_before[i]));
            }
            pos.push_back(w.pos());
            if (i == n) break;
            bool lab = to_label[i];
            bc::emit(w, code[i], [&](const Ins& x, BytecodeLabel& l) {
                if (lab) l = BytecodeLabel((u32) x.v.back());
                return lab;
            });
            auto& in = *bc::info((u8) code[i].op);
            for (size_t k = 0; k < in.kinds.size(); ++k)
                if (in.kinds[k] == bc::Member) want_refs.push_back({(u32) i, (u32) code[i].v[k]});
        }
        w.finish();
        refs = w.take_module_refs();
    }
    for (size_t i = 0; i < n; ++i)
        if (to_label[i]) code[i].v.back() = pos[label_at[code[i].v.back()]];

    // decode
    BytecodeReader r(std::as_const(f).code());
    size_t k = 0;
    while (r.remaining() > 0) {
        if (k >= n) c.fail("there are more instructions than written");
        if (r.pos() != pos[k]) c.fail(sfmt("instruction %zu is at %zu, not at %u", k, r.pos(), pos[k]));
        auto x = r.read();
        if (auto* e = std::get_if<BytecodeReaderError>(&x)) c.fail(sfmt("instruction %zu cannot be read: ", k) + std::string(tiro::message(*e)));
        Ins got = bc::decode(std::get<tiro::BytecodeInstr>(x));
        if (!same(got, code[k])) c.fail(sfmt("instruction %zu was written as %s and is read as %s", k, show(code[k]).c_str(), show(got).c_str()));
        ++k;
    }
    if (k != n) c.fail("instructions are missing");
    {
        auto x = r.read();
        auto* e = std::get_if<BytecodeReaderError>(&x);
        if (!e || *e != BytecodeReaderError::End) c.fail("reading past the end");
    }
    // any proper prefix of an instruction is incomplete
    if (n) {
        size_t i = t.below(n);
        u32 len = pos[i + 1] - pos[i];
        auto bytes = std::as_const(f).code();
        if (len > 1) {
            u32 cut = 1 + (u32) t.below(len - 1);
            std::vector<tiro::byte> part(bytes.begin() + pos[i], bytes.begin() + pos[i] + cut); // exact allocation, watched by asan
            BytecodeReader q(part);
            auto x = q.read();
            auto* e = std::get_if<BytecodeReaderError>(&x);
            if (!e || *e != BytecodeReaderError::IncompleteInstruction) c.fail(sfmt("the first %u of %u bytes of ", cut, len) + show(code[i]) + " are accepted");
        }
    }
    // references to members: the place and the id
    if (refs.size() != want_refs.size()) c.fail("wrong number of module references");
    for (size_t i = 0; i < refs.size(); ++i) {
        auto [p, id] = refs[i];
        auto [ins, member] = want_refs[i];
        if (id.value() != member || p <= pos[ins] || p + 4 > pos[ins + 1]) c.fail(sfmt("module reference %zu is (%u, %u)", i, p, id.value()));
        // patching exactly these bytes changes exactly this operand
        BytecodeFunction g;
        g.code() = f.code();
        std::vector<tiro::byte> other;
        tiro::BinaryWriter bw(g.code());
        u32 repl = member == 12345 ? 54321 : 12345;
        bw.overwrite_u32(p, repl);
        BytecodeReader q(std::as_const(g).code().drop_front(pos[ins]));
        auto x = q.read();
        auto* e = std::get_if<BytecodeReaderError>(&x);
        Ins expect = code[ins];
        auto& in = *bc::info((u8) expect.op);
        for (size_t k = 0; k < in.kinds.size(); ++k)
            if (in.kinds[k] == bc::Member) expect.v[k] = repl;
        if (e || !same(bc::decode(std::get<tiro::BytecodeInstr>(x)), expect)) c.fail(sfmt("module reference %zu does not name the place of its operand", i));
    }
    // handlers: for every instruction the active handler
    {
        std::vector<long> active(n, -1);
        int cur = -1;
        for (size_t i = 0; i < n; ++i) {
            if (handler_before[i] > -2) cur = handler_before[i];
            active[i] = cur < 0 ? -1 : (long) pos[label_at[cur]];
        }
        u32 last = 0;
        std::vector<long> got(n, -1);
        for (auto& h : f.handlers()) {
            if (!h.from || !h.to || !h.target || h.from.value() < last || h.to.value() <= h.from.value() || h.to.value() > pos[n]) c.fail("the handler table is not ordered");
            last = h.to.value();
            for (size_t i = 0; i < n; ++i)
                if (pos[i] >= h.from.value() && pos[i] < h.to.value()) got[i] = h.target.value();
        }
        for (size_t i = 0; i < n; ++i)
            if (got[i] != active[i]) c.fail(sfmt("the handler of instruction %zu is %ld, expected %ld", i, got[i], active[i]));
        c.label("handlers", f.handlers().size() >= 2);
    }
    check_disassembly(c, disassembly(f), code, pos);
    c.label("labels", std::count(to_label.begin(), to_label.end(), true) > 0);
    c.count("instructions", n);
    c.nontrivial = n >= 3;
}

// ------------------------------------------------------------------------------------------------ modules
// Reference verifier. Returns why the module is malformed, or nothing.
struct Where {
    u32 pos;
    Ins ins;
};
size_t operand_size(bc::Kind k) { return k == bc::I64 || k == bc::F64 ? 8 : 4; }

std::string decode_all(const BytecodeFunction& f, std::vector<Where>& out) {
    auto code = f.code();
    u32 pos = 0;
    while (pos < code.size()) {
        auto* in = bc::info((u8) code[pos]);
        if (!in) return sfmt("unknown opcode at %u", pos);
        size_t len = 1;
        for (auto k : in->kinds) len += operand_size(k);
        if (code.size() - pos < len) return sfmt("incomplete instruction at %u", pos);
        BytecodeReader r(code.subspan(pos, len));
        auto x = r.read();
        if (std::holds_alternative<BytecodeReaderError>(x)) return sfmt("?unreadable instruction at %u", pos);
        out.push_back({pos, bc::decode(std::get<tiro::BytecodeInstr>(x))});
        pos += (u32) len;
    }
    return "";
}

bool is(const BytecodeModule& m, u32 id, BytecodeMemberType t) { return id < m.member_count() && m[BytecodeMemberId(id)].type() == t; }
const BytecodeFunction* function_of(const BytecodeModule& m, u32 id) {
    if (!is(m, id, BytecodeMemberType::Function)) return nullptr;
    auto f = m[BytecodeMemberId(id)].as_function().id;
    return f && f.value() < m.function_count() ? &m[f] : nullptr;
}

bool member_ok(const BytecodeModule& m, Op op, u64 id) {
    if (id >= m.member_count()) return false;
    auto type = m[BytecodeMemberId((u32) id)].type();
    auto* fn = function_of(m, (u32) id);
    switch (op) {
    case Op::LoadModule: return type != BytecodeMemberType::RecordSchema && !(type == BytecodeMemberType::Function && (!fn || fn->type() != BytecodeFunctionType::Normal));
    case Op::StoreModule: return type == BytecodeMemberType::Variable;
    case Op::LoadMember:
    case Op::StoreMember:
    case Op::LoadMethod: return type == BytecodeMemberType::Symbol;
    case Op::Closure: return fn && fn->type() == BytecodeFunctionType::Closure;
    case Op::Record: return type == BytecodeMemberType::RecordSchema;
    default: return true;
    }
}

std::string judge_function(const BytecodeModule& m, const BytecodeFunction& f) {
    if (f.locals() > max_locals) return "too many locals";
    std::vector<Where> code;
    std::string e = decode_all(f, code);
    if (!e.empty()) return e;
    if (code.empty()) return "no code";
    auto start = [&](u64 p) { return std::binary_search(code.begin(), code.end(), Where{(u32) p, {}}, [](const Where& a, const Where& b) { return a.pos < b.pos; }) && p < f.code().size(); };
    for (auto& w : code) {
        auto& in = *bc::info((u8) w.ins.op);
        for (size_t k = 0; k < in.kinds.size(); ++k) {
            u64 v = w.ins.v[k];
            auto bad = [&] { return sfmt("%s in `%s` at %u", in.fields[k], show(w.ins).c_str(), w.pos); };
            switch (in.kinds[k]) {
            case bc::Reg:
                if (v >= f.locals()) return "local " + bad();
                break;
            case bc::Param:
                if (v >= f.params() || v == invalid) return "parameter " + bad();
                break;
            case bc::Member:
                if (!member_ok(m, w.ins.op, v)) return "member " + bad();
                break;
            case bc::Offset:
                if (!start(v)) return "offset " + bad();
                break;
            default: break;
            }
        }
        switch (w.ins.op) {
        case Op::Array:
        case Op::Tuple:
        case Op::Set:
        case Op::Map:
            if (w.ins.v[0] > max_container) return "too many elements";
            if (w.ins.op == Op::Map && w.ins.v[0] % 2) return "odd number of map elements";
            break;
        case Op::LoadClosure:
            if (f.type() != BytecodeFunctionType::Closure) return "LoadClosure in a normal function";
            break;
        default: break;
        }
    }
    switch (code.back().ins.op) {
    case Op::Return:
    case Op::Rethrow:
    case Op::Jmp:
    case Op::AssertFail: break;
    default: return "the code runs past its end";
    }
    u32 last = 0;
    for (auto& h : f.handlers()) {
        if (!h.from || !start(h.from.value()) || h.from.value() < last) return "handler start";
        if (!h.to || !(start(h.to.value()) || h.to.value() == f.code().size()) || h.to.value() <= h.from.value()) return "handler end";
        if (!h.target || !start(h.target.value())) return "handler target";
        last = h.to.value();
    }
    return "";
}

std::string judge(const BytecodeModule& m) {
    if (!m.name()) return "no name";
    u32 n = (u32) m.member_count();
    for (u32 i = 0; i < n; ++i) {
        auto& x = m[BytecodeMemberId(i)];
        auto earlier = [&](BytecodeMemberId id, BytecodeMemberType t) { return id && id.value() < i && is(m, id.value(), t); };
        switch (x.type()) {
        case BytecodeMemberType::String:
            if (!x.as_string().value) return sfmt("string %u", i);
            break;
        case BytecodeMemberType::Symbol:
            if (!earlier(x.as_symbol().name, BytecodeMemberType::String)) return sfmt("symbol %u", i);
            break;
        case BytecodeMemberType::Import:
            if (!earlier(x.as_import().module_name, BytecodeMemberType::String)) return sfmt("import %u", i);
            break;
        case BytecodeMemberType::Function: {
            auto* f = function_of(m, i);
            if (!f) return sfmt("function %u", i);
            if (f->name() && !earlier(f->name(), BytecodeMemberType::String)) return sfmt("function name of %u", i);
            break;
        }
        case BytecodeMemberType::RecordSchema: {
            auto id = x.as_record_schema().id;
            if (!id || id.value() >= m.record_count()) return sfmt("schema %u", i);
            for (auto k : m[id].keys())
                if (!earlier(k, BytecodeMemberType::Symbol)) return sfmt("key of schema %u", i);
            break;
        }
        default: break;
        }
    }
    for (u32 i = 0; i < n; ++i)
        if (auto* f = function_of(m, i)) {
            auto e = judge_function(m, *f);
            if (!e.empty()) return sfmt("function %u: ", i) + e;
        }
    if (auto id = m.init()) {
        auto* f = function_of(m, id.value());
        if (!f || f->type() != BytecodeFunctionType::Normal) return "initializer";
    }
    for (auto [s, v] : m.exports()) {
        if (!s || !is(m, s.value(), BytecodeMemberType::Symbol)) return "export name";
        if (!v || v.value() >= n) return "exported member";
        auto ty = m[v].type();
        if (ty == BytecodeMemberType::Import || ty == BytecodeMemberType::RecordSchema) return "exported member of an internal type";
        if (ty == BytecodeMemberType::Function && function_of(m, v.value())->type() != BytecodeFunctionType::Normal) return "exported closure";
    }
    return "";
}

std::string module_text(const BytecodeModule& m) {
    // written from scratch, since the library expects well formed modules
    std::string s = sfmt("init %lld\n", m.init() ? (long long) m.init().value() : -1ll);
    for (auto [a, b] : m.exports()) s += sfmt("export %u -> %u\n", a.value(), b.value());
    for (u32 i = 0; i < m.member_count(); ++i) {
        auto& x = m[BytecodeMemberId(i)];
        s += sfmt("%u: ", i) + std::string(tiro::to_string(x.type()));
        switch (x.type()) {
        case BytecodeMemberType::Symbol: s += sfmt(" %u", x.as_symbol().name.value()); break;
        case BytecodeMemberType::Import: s += sfmt(" %u", x.as_import().module_name.value()); break;
        case BytecodeMemberType::Function: {
            s += sfmt(" #%u", x.as_function().id.value());
            auto* f = function_of(m, i);
            if (!f) break;
            s += sfmt(" %s params %u locals %u name %u\n", f->type() == BytecodeFunctionType::Closure ? "closure" : "normal", f->params(), f->locals(), f->name().value());
            std::vector<Where> code;
            auto e = decode_all(*f, code);
            for (auto& w : code) s += sfmt("    %u: ", w.pos) + show(w.ins) + "\n";
            if (!e.empty()) s += "    " + e + "\n";
            for (auto& h : f->handlers()) s += sfmt("    handler [%u, %u) -> %u\n", h.from.value(), h.to.value(), h.target.value());
            break;
        }
        case BytecodeMemberType::RecordSchema:
            s += sfmt(" #%u", x.as_record_schema().id.value());
            if (x.as_record_schema().id && x.as_record_schema().id.value() < m.record_count())
                for (auto k : m[x.as_record_schema().id].keys()) s += sfmt(" %u", k.value());
            break;
        default: break;
        }
        s += "\n";
    }
    return s;
}

const tiro::BytecodeMember& cmember(const BytecodeModule& m, u32 i) { return m[BytecodeMemberId(i)]; }
std::vector<u32> members_of(const BytecodeModule& m, Op op) {
    std::vector<u32> r;
    for (u32 i = 0; i < m.member_count(); ++i)
        if (member_ok(m, op, i)) r.push_back(i);
    return r;
}

// Overwrites the bytes of an operand with the bytes of the same operand of another instruction.
void patch(BytecodeFunction& f, const Where& w, size_t operand, u64 value) {
    auto& in = *bc::info((u8) w.ins.op);
    size_t at = w.pos + 1;
    for (size_t k = 0; k < operand; ++k) at += operand_size(in.kinds[k]);
    tiro::BinaryWriter bw(f.code());
    if (operand_size(in.kinds[operand]) == 8) bw.overwrite_u64(at, value);
    else bw.overwrite_u32(at, (u32) value);
}

struct Built {
    std::unique_ptr<BytecodeModule> m;
    // exports with the expected values
    std::vector<std::pair<std::string, u32>> exports;
    std::map<u32, std::string> text; // of strings and symbols
};

Built build_module(Tape& t) {
    Built b;
    b.m = std::make_unique<BytecodeModule>();
    auto& m = *b.m;
    m.name(m.strings().insert("generated"));
    auto& mem = m.members();
    std::vector<u32> strings, symbols, functions;
    size_t n = 3 + t.below(14);
    size_t string_no = 0;
    auto add_string = [&] {
        std::string v = t.chance(1, 3) ? std::string("std") : t.chance(1, 8) ? "" : sfmt("s%zu", string_no++);
        auto id = mem.push_back(BytecodeMember::make_string(m.strings().insert(v)));
        strings.push_back(id.value());
        b.text[id.value()] = v;
    };
    for (size_t i = 0; i < n; ++i) {
        switch (t.weighted({2, 1, 3, 3, 1, 2, 6, 2})) {
        case 0: mem.push_back(BytecodeMember::make_integer(t.any_i64())); break;
        case 1: mem.push_back(BytecodeMember::make_float(t.any_f64())); break;
        case 3:
            if (strings.empty()) {
                add_string();
                break;
            }
            {
                u32 s = t.pick(strings);
                auto id = mem.push_back(BytecodeMember::make_symbol(BytecodeMemberId(s)));
                symbols.push_back(id.value());
                b.text[id.value()] = b.text[s];
            }
            break;
        case 4:
            if (strings.empty()) add_string();
            else mem.push_back(BytecodeMember::make_import(BytecodeMemberId(t.pick(strings))));
            break;
        case 5: mem.push_back(BytecodeMember::make_variable(strings.empty() ? BytecodeMemberId() : BytecodeMemberId(t.pick(strings)), BytecodeMemberId())); break;
        case 6: {
            BytecodeFunction f;
            f.type(t.chance(1, 3) ? BytecodeFunctionType::Closure : BytecodeFunctionType::Normal);
            f.params((u32) t.below(4));
            f.locals(t.chance(1, 12) ? max_locals - (u32) t.below(2) : 1 + (u32) t.below(6));
            if (!strings.empty() && t.chance(2, 3)) f.name(BytecodeMemberId(t.pick(strings)));
            auto fid = m.functions().push_back(std::move(f));
            auto id = mem.push_back(BytecodeMember::make_function(fid));
            functions.push_back(id.value());
            break;
        }
        case 7: {
            tiro::BytecodeRecordSchema s;
            for (u32 k : symbols) {
                bool dup = false;
                for (auto o : s.keys()) dup |= b.text[o.value()] == b.text[k];
                if (!dup && t.chance(1, 2)) s.keys().push_back(BytecodeMemberId(k));
            }
            auto rid = m.records().push_back(std::move(s));
            mem.push_back(BytecodeMember::make_record_schema(rid));
            break;
        }
        default: add_string();
        }
    }
    // code
    for (u32 id : functions) {
        auto& f = m[cmember(m, id).as_function().id];
        size_t count = 1 + t.below(t.chance(1, 4) ? 30 : 10);
        std::vector<Ins> code;
        for (size_t i = 0; i + 1 < count; ++i) {
            auto& in = bc::ops()[t.below(bc::ops().size())];
            Ins x{in.op, {}};
            bool ok = in.op != Op::LoadClosure || f.type() == BytecodeFunctionType::Closure;
            for (auto k : in.kinds) {
                switch (k) {
                case bc::Reg: x.v.push_back(t.chance(1, 3) ? f.locals() - 1 : t.below(f.locals())); break;
                case bc::Param:
                    ok &= f.params() > 0;
                    x.v.push_back(f.params() ? t.below(f.params()) : 0);
                    break;
                case bc::Member: {
                    auto can = members_of(m, in.op);
                    ok &= !can.empty();
                    x.v.push_back(can.empty() ? 0 : t.pick(can));
                    break;
                }
                case bc::Offset: x.v.push_back(t.below(count)); break;
                case bc::I64: x.v.push_back((u64) t.any_i64()); break;
                case bc::F64: x.v.push_back(bc::bits_of(t.any_f64())); break;
                case bc::U32:
                    switch (in.op) {
                    case Op::Array:
                    case Op::Tuple:
                    case Op::Set: x.v.push_back(t.chance(1, 4) ? max_container - t.below(2) : t.below(100)); break;
                    case Op::Map: x.v.push_back(t.chance(1, 4) ? max_container - 2 * t.below(2) : 2 * t.below(100)); break;
                    default: x.v.push_back(edge_u32(t));
                    }
                    break;
                }
            }
            if (!ok) x = {Op::LoadNull, {0}};
            code.push_back(x);
        }
        switch (t.below(5)) {
        case 0: code.push_back({Op::Rethrow, {}}); break;
        case 1: code.push_back({Op::Jmp, {t.below(count)}}); break;
        case 2: code.push_back({Op::AssertFail, {0, f.locals() - 1}}); break;
        default: code.push_back({Op::Return, {t.below(f.locals())}});
        }
        std::vector<u32> pos;
        BytecodeWriter w(f);
        for (u32 i = 0; i < count; ++i) {
            w.define_label(BytecodeLabel(i));
            pos.push_back(w.pos());
            bc::emit(w, code[i], [&](const Ins& x, BytecodeLabel& l) {
                l = BytecodeLabel((u32) x.v.back());
                return true;
            });
        }
        pos.push_back(w.pos());
        w.finish();
        // handlers
        size_t from = 0;
        while (t.chance(1, 2) && from < count) {
            from += t.below(count - from);
            size_t to = from + 1 + t.below(count - from);
            f.handlers().push_back({BytecodeOffset(pos[from]), BytecodeOffset(pos[to]), BytecodeOffset(pos[t.below(count)])});
            from = to;
        }
    }
    // exports
    std::set<std::string> used;
    for (u32 s : symbols) {
        if (!t.chance(2, 3) || used.count(b.text[s])) continue;
        std::vector<u32> can;
        for (u32 i = 0; i < m.member_count(); ++i) {
            auto ty = m[BytecodeMemberId(i)].type();
            if (ty == BytecodeMemberType::Import || ty == BytecodeMemberType::RecordSchema) continue;
            if (ty == BytecodeMemberType::Function && function_of(m, i)->type() != BytecodeFunctionType::Normal) continue;
            can.push_back(i);
        }
        if (can.empty()) break;
        u32 v = t.pick(can);
        m.add_export(BytecodeMemberId(s), BytecodeMemberId(v));
        used.insert(b.text[s]);
        b.exports.push_back({b.text[s], v});
    }
    return b;
}

Built copy_of(const Built& b) {
    Built r;
    r.m = std::make_unique<BytecodeModule>();
    auto &from = *b.m, &to = *r.m;
    r.exports = b.exports;
    r.text = b.text;
    to.name(to.strings().insert("generated"));
    for (auto id : from.member_ids()) {
        auto& x = std::as_const(from)[id];
        to.members().push_back(x.type() == BytecodeMemberType::String ? BytecodeMember::make_string(to.strings().insert(b.text.at(id.value()))) : x);
    }
    for (auto id : from.function_ids()) {
        auto& f = std::as_const(from)[id];
        BytecodeFunction g;
        g.name(f.name());
        g.type(f.type());
        g.params(f.params());
        g.locals(f.locals());
        g.code().assign(f.code().begin(), f.code().end());
        g.handlers().assign(f.handlers().begin(), f.handlers().end());
        to.functions().push_back(std::move(g));
    }
    for (auto id : from.record_ids()) {
        tiro::BytecodeRecordSchema q;
        q.keys() = std::as_const(from)[id].keys();
        to.records().push_back(std::move(q));
    }
    for (auto [a, v] : from.exports()) to.add_export(a, v);
    to.init(from.init());
    return r;
}

tiro_errc_t load(Vm& vm, std::unique_ptr<BytecodeModule>& m, std::string* message = nullptr) {
    tiro_module tm(std::move(m));
    Err e;
    tiro_vm_load_bytecode(vm, &tm, e);
    m = std::move(tm.mod);
    if (message && !e.ok()) *message = e.text();
    return e.code();
}

const char* const world_probe = "[7, \"(1, \"a\")\"]";

struct World {
    Vm vm;
    Compiled probe;
    World()
        : vm(64u << 20)
        , probe(compile("probe", "import std; export func main(x) = [x, std.debug_repr((1, 'a'))];")) {
        vm.load(probe);
    }
    void usable(Case& c) {
        H x = vm.integer(7);
        auto r = vm.call("probe", "main", {x});
        if (!r.ok() || vm.show(r.value) != world_probe) c.fail("the virtual machine is not usable any more: " + r.message + (r.ok() ? vm.show(r.value) : ""));
    }
};

// The module must be known only if it was accepted.
void check_known(Case& c, Vm& vm, const Built& b, bool accepted) {
    for (auto& [name, member] : b.exports) {
        if (name.empty()) continue; // not a valid argument
        Err e;
        H x(vm);
        tiro_vm_get_export(vm, ts("generated"), ts(name), x, e);
        if (!accepted) {
            if (e.ok()) c.fail("a rejected module provides " + name);
            if (e.code() != TIRO_ERROR_MODULE_NOT_FOUND) c.fail("a rejected module: " + e.text());
            continue;
        }
        auto& mm = cmember(*b.m, member);
        if (mm.type() == BytecodeMemberType::Variable || !e.ok()) continue; // not initialized, or imports that do not exist
        switch (mm.type()) {
        case BytecodeMemberType::Integer:
            if (tiro_value_kind(vm, x) != TIRO_KIND_INTEGER || tiro_integer_value(vm, x) != mm.as_integer().value) c.fail("export " + name + " is " + vm.show(x));
            break;
        case BytecodeMemberType::Float:
            if (tiro_value_kind(vm, x) != TIRO_KIND_FLOAT || bc::bits_of(tiro_float_value(vm, x)) != bc::bits_of(mm.as_float().value)) c.fail("export " + name + " is " + vm.show(x));
            break;
        case BytecodeMemberType::String:
            if (vm.text(x) != b.text.at(member)) c.fail("export " + name + " is " + vm.show(x));
            break;
        case BytecodeMemberType::Function:
            if (tiro_value_kind(vm, x) != TIRO_KIND_FUNCTION) c.fail("export " + name + " is " + vm.show(x));
            break;
        default: break;
        }
        c.count("exports checked", 1);
    }
}

// ------------------------------------------------------------------------------------------------ malformed
// Makes the module malformed in one place; returns what was done, empty if it was not possible.
std::string damage(Tape& t, BytecodeModule& m) {
    auto& mem = m.members();
    u32 n = (u32) m.member_count();
    auto wrong = [&](BytecodeMemberType want, u32 before) -> BytecodeMemberId {
        // an id that is not an earlier member of that type
        for (int i = 0; i < 20; ++i) {
            u32 id;
            switch (t.below(5)) {
            case 0: return BytecodeMemberId();
            case 1: id = n + (u32) t.below(3); break;
            case 2: id = 0xfffffffeu - (u32) t.below(2); break;
            case 3: id = before + (u32) t.below(n); break;
            default: id = (u32) t.below(n);
            }
            if (id >= before || !is(m, id, want)) return BytecodeMemberId(id);
        }
        return BytecodeMemberId(n);
    };
    auto pick_member = [&](BytecodeMemberType type) -> long {
        std::vector<u32> c;
        for (u32 i = 0; i < n; ++i)
            if (is(m, i, type)) c.push_back(i);
        return c.empty() ? -1 : (long) t.pick(c);
    };
    auto set = [&](long i, BytecodeMember x) { mem[BytecodeMemberId((u32) i)] = x; };
    int kind = (int) t.weighted({1, 2, 2, 2, 2, 2, 1, 3, 3, 12, 6, 3, 3, 3, 3, 4, 2});
    switch (kind) {
    case 0: m.name(tiro::InternedString()); return "no module name";
    case 1: {
        long i = pick_member(BytecodeMemberType::String);
        if (i < 0) return "";
        set(i, BytecodeMember::make_string(tiro::InternedString()));
        return sfmt("string %ld without value", i);
    }
    case 2: {
        long i = pick_member(BytecodeMemberType::Symbol);
        if (i < 0) return "";
        set(i, BytecodeMember::make_symbol(wrong(BytecodeMemberType::String, (u32) i)));
        return sfmt("symbol %ld", i);
    }
    case 3: {
        long i = pick_member(BytecodeMemberType::Import);
        if (i < 0) return "";
        set(i, BytecodeMember::make_import(wrong(BytecodeMemberType::String, (u32) i)));
        return sfmt("import %ld", i);
    }
    case 4: {
        long i = pick_member(BytecodeMemberType::RecordSchema);
        if (i < 0) return "";
        auto& s = m[cmember(m, (u32) i).as_record_schema().id];
        s.keys().insert(s.keys().begin() + t.below(s.keys().size() + 1), wrong(BytecodeMemberType::Symbol, (u32) i));
        return sfmt("schema %ld", i);
    }
    case 5: {
        bool in_range = false;
        auto id = wrong(BytecodeMemberType::Function, n);
        if (t.chance(1, 3)) {
            for (u32 i = 0; i < n; ++i)
                if (auto* f = function_of(m, i); f && f->type() == BytecodeFunctionType::Closure) id = BytecodeMemberId(i), in_range = true;
            if (!in_range) return "";
        }
        if (!id) return "";
        m.init(id);
        return "initializer";
    }
    case 6: {
        long i = pick_member(t.chance(1, 2) ? BytecodeMemberType::Function : BytecodeMemberType::RecordSchema);
        if (i < 0) return "";
        bool fn = is(m, (u32) i, BytecodeMemberType::Function);
        u32 count = (u32) (fn ? m.function_count() : m.record_count());
        u32 id = t.chance(1, 4) ? invalid : t.chance(1, 2) ? count : count + (u32) t.below(1u << 20);
        if (fn) set(i, BytecodeMember::make_function(tiro::BytecodeFunctionId(id)));
        else set(i, BytecodeMember::make_record_schema(tiro::BytecodeRecordSchemaId(id)));
        return sfmt("member %ld refers to a function or schema that does not exist", i);
    }
    case 7: {
        // export
        long s = pick_member(BytecodeMemberType::Symbol);
        if (t.chance(1, 2) || s < 0) {
            u32 v = (u32) t.below(n);
            auto id = wrong(BytecodeMemberType::Symbol, n);
            if (!id) return ""; // cannot be represented
            m.add_export(id, BytecodeMemberId(v));
            return "export name";
        }
        BytecodeMemberId v;
        switch (t.below(4)) {
        case 0: break;
        case 1: v = BytecodeMemberId(n + (u32) t.below(5)); break;
        default: {
            std::vector<u32> c;
            for (u32 i = 0; i < n; ++i)
                if (is(m, i, BytecodeMemberType::Import) || is(m, i, BytecodeMemberType::RecordSchema) || (function_of(m, i) && function_of(m, i)->type() == BytecodeFunctionType::Closure)) c.push_back(i);
            if (c.empty()) return "";
            v = BytecodeMemberId(t.pick(c));
        }
        }
        if (!v) return ""; // cannot be represented
        m.add_export(BytecodeMemberId((u32) s), v);
        return "exported member";
    }
    default: break;
    }
    long fi = pick_member(BytecodeMemberType::Function);
    if (fi < 0) return "";
    auto& f = m[cmember(m, (u32) fi).as_function().id];
    std::vector<Where> code;
    decode_all(f, code);
    auto starts = [&](u64 p) {
        for (auto& w : code)
            if (w.pos == p) return true;
        return false;
    };
    auto bad_offset = [&](bool end_allowed) -> u32 {
        for (int i = 0; i < 50; ++i) {
            u32 p;
            switch (t.below(4)) {
            case 0: p = (u32) f.code().size() + (u32) t.below(3); break;
            case 1: p = edge_u32(t); break;
            case 2: return invalid;
            default: p = (u32) t.below(f.code().size());
            }
            if (!starts(p) && !(end_allowed && p == f.code().size())) return p;
        }
        return invalid;
    };
    std::string where = sfmt(" of function member %ld", fi);
    switch (kind) {
    case 8:
        f.name(wrong(BytecodeMemberType::String, (u32) fi));
        if (!f.name()) return "";
        return "name" + where;
    case 9: {
        // an operand
        std::vector<std::pair<size_t, size_t>> places;
        for (size_t i = 0; i < code.size(); ++i) {
            auto& in = *bc::info((u8) code[i].ins.op);
            for (size_t k = 0; k < in.kinds.size(); ++k)
                if (in.kinds[k] <= bc::Offset) places.push_back({i, k});
        }
        if (places.empty()) return "";
        auto [i, k] = t.pick(places);
        auto& w = code[i];
        auto kind = bc::info((u8) w.ins.op)->kinds[k];
        u64 v;
        if (kind == bc::Reg) v = t.chance(1, 2) ? f.locals() : f.locals() + edge_u32(t) < f.locals() ? invalid : t.chance(1, 2) ? invalid : 0xfffffffeu;
        else if (kind == bc::Param) v = t.chance(1, 2) ? f.params() : t.chance(1, 2) ? invalid : 0xfffffffeu;
        else if (kind == bc::Offset) v = bad_offset(false);
        else {
            std::vector<u32> c{n, n + 1, invalid, 0xfffffffeu};
            for (int rep = 0; rep < 3; ++rep)
                for (u32 x = 0; x < n; ++x)
                    if (!member_ok(m, w.ins.op, x)) c.push_back(x);
            v = t.pick(c);
        }
        patch(f, w, k, v);
        return sfmt("operand %zu of %s at %u = %llu", k, bc::info((u8) w.ins.op)->name, w.pos, (unsigned long long) v) + where;
    }
    case 10: {
        // truncated inside of an instruction
        std::vector<u32> c;
        for (u32 p = 1; p < f.code().size(); ++p)
            if (!starts(p)) c.push_back(p);
        if (c.empty()) return "";
        u32 p = t.pick(c);
        f.code().resize(p);
        f.handlers().clear();
        return sfmt("truncated to %u", p) + where;
    }
    case 11: {
        // unknown opcode
        auto& w = t.pick(code);
        u32 raw;
        do raw = (u32) t.below(256);
        while (bc::info((u8) raw));
        f.code()[w.pos] = (tiro::byte) raw;
        return sfmt("opcode %u at %u", raw, w.pos) + where;
    }
    case 12: {
        // runs past the end
        f.code().resize(t.chance(1, 3) ? 0 : f.code().size());
        f.handlers().clear();
        if (f.code().empty()) return "no code" + where;
        BytecodeWriter w(f);
        switch (t.below(6)) {
        case 0: w.load_null(tiro::BytecodeRegister(0)); break;
        case 1: w.pop(); break;
        case 2: w.call(tiro::BytecodeRegister(0), 0); break;
        case 3: w.jmp_true(tiro::BytecodeRegister(0), BytecodeOffset(0)); break;
        case 4: w.push(tiro::BytecodeRegister(0)); break;
        default: w.jmp_null(tiro::BytecodeRegister(0), BytecodeOffset(0));
        }
        return "runs past the end" + where;
    }
    case 13: {
        // handlers
        auto at = [&] { return code[t.below(code.size())].pos; };
        u32 size = (u32) f.code().size();
        int how = (int) t.below(5);
        tiro::ExceptionHandler h{BytecodeOffset(0), BytecodeOffset(size), BytecodeOffset(at())};
        switch (how) {
        case 0: h.from = BytecodeOffset(bad_offset(false)); break;
        case 1: h.to = BytecodeOffset(bad_offset(true)); break;
        case 2: h.target = BytecodeOffset(bad_offset(false)); break;
        case 3: {
            u32 a = at(), b = at();
            h.from = BytecodeOffset(std::max(a, b));
            h.to = BytecodeOffset(std::min(a, b));
            break;
        }
        default: {
            // overlap or wrong order
            f.handlers().clear();
            size_t i = t.below(code.size()), j = i + 1 + t.below(code.size() - i);
            u32 end = j < code.size() ? code[j].pos : size;
            f.handlers().push_back({BytecodeOffset(code[i].pos), BytecodeOffset(end), BytecodeOffset(0)});
            size_t k = t.below(j);
            h = {BytecodeOffset(code[k].pos), BytecodeOffset(size), BytecodeOffset(at())};
            f.handlers().push_back(h);
            return "overlapping handlers" + where;
        }
        }
        f.handlers().clear();
        f.handlers().push_back(h);
        return sfmt("handler kind %d", how) + where;
    }
    case 14:
        if (t.chance(1, 2)) {
            f.locals(max_locals + 1 + (u32) t.below(3));
            return "too many locals" + where;
        } else {
            u32 used = 0;
            for (auto& w : code) {
                auto& in = *bc::info((u8) w.ins.op);
                for (size_t k = 0; k < in.kinds.size(); ++k)
                    if (in.kinds[k] == bc::Reg) used = std::max(used, (u32) w.ins.v[k] + 1);
            }
            if (!used) return "";
            f.locals(used - 1);
            return "too few locals" + where;
        }
    case 15: {
        // wrong counts: a new instruction before the last one
        BytecodeFunction g;
        f.code().resize(code.back().pos);
        f.handlers().clear();
        BytecodeWriter w(f);
        tiro::BytecodeRegister r(f.locals() - 1);
        u32 many = max_container + 1 + (t.chance(1, 2) ? 0 : edge_u32(t) / 2);
        switch (t.below(6)) {
        case 0: w.array(many, r); break;
        case 1: w.tuple(many, r); break;
        case 2: w.set(many, r); break;
        case 3: w.map(many | 1, r); break;
        case 4: w.map((1 + (u32) t.below(1ull << t.below(17))) | 1, r); break;
        default: w.map(max_container + 2, r);
        }
        w.ret(r);
        for (auto& x : code)
            if (bc::info((u8) x.ins.op)->kinds.size() && bc::info((u8) x.ins.op)->kinds.back() == bc::Offset && x.pos < code.back().pos) patch(f, x, x.ins.v.size() - 1, 0);
        return "count" + where;
    }
    default: {
        // closures
        if (f.type() == BytecodeFunctionType::Closure) {
            bool uses = false;
            for (auto& w : code) uses |= w.ins.op == Op::LoadClosure;
            if (!uses) return "";
            f.type(BytecodeFunctionType::Normal);
            return "uses LoadClosure in a normal function" + where;
        }
        f.code().clear();
        f.handlers().clear();
        BytecodeWriter w(f);
        w.load_closure(tiro::BytecodeRegister(0));
        w.ret(tiro::BytecodeRegister(0));
        return "LoadClosure in a normal function" + where;
    }
    }
}

void modules(Case& c) {
    Tape& t = c.t;
    static World* world = new World;
    Vm vm(64u << 20);
    Built good = build_module(t);
    c.describe(module_text(*good.m));
    std::string why = judge(*good.m);
    if (!why.empty()) c.fail("the generator is wrong: " + why);
    std::string message;
    tiro_errc_t code = load(vm, good.m, &message);
    if (code != TIRO_OK) c.fail("a well-formed module is rejected: " + message);
    check_known(c, vm, good, true);
    // loading the same name again is an error
    code = load(vm, good.m, &message);
    if (code == TIRO_OK) c.fail("the module was loaded twice");
    // the disassembly covers everything
    {
        tiro::StringFormatStream s;
        tiro::format_module(*good.m, s);
        std::string text = s.take_str();
        for (auto id : good.m->function_ids()) {
            auto& f = (*good.m)[id];
            std::vector<Where> code;
            decode_all(f, code);
            std::vector<Ins> ins;
            std::vector<u32> pos;
            for (auto& w : code) ins.push_back(w.ins), pos.push_back(w.pos);
            check_disassembly(c, disassembly(f), ins, pos);
        }
        if (text.find("generated") == std::string::npos) c.fail("the disassembly does not name the module");
    }
    c.count("functions", good.m->function_count());
    c.nontrivial = good.m->function_count() >= 1;
    (void) world;
}

void malformed(Case& c) {
    Tape& t = c.t;
    static World* world = nullptr;
    static int uses = 0;
    if (!world || ++uses % 200 == 0) delete world, world = new World;
    Built good = build_module(t);
    Built bad = copy_of(good);
    std::string what;
    for (int i = 0; i < 4 && what.empty(); ++i) what = damage(t, *bad.m);
    if (what.empty()) c.discard();
    c.describe(what + "\n" + module_text(*bad.m));
    std::string why = judge(*bad.m);
    if (why.empty()) c.fail("the damage is not seen by the reference: " + what);
    std::string message;
    tiro_errc_t code = load(world->vm, bad.m, &message);
    if (code == TIRO_OK) c.fail("a malformed module is accepted: " + why);
    check_known(c, world->vm, bad, false);
    if (t.chance(1, 4)) world->usable(c);
    if (t.chance(1, 8)) {
        // the correct module can still be loaded
        Vm vm(64u << 20);
        if (load(vm, bad.m) == TIRO_OK) c.fail("a malformed module is accepted: " + why);
        if (load(vm, good.m, &message) != TIRO_OK) c.fail("after a malformed module, the correct one is rejected: " + message);
        check_known(c, vm, good, true);
    }
    c.add("because: " + why + "\n");
    c.nontrivial = true;
}

// ------------------------------------------------------------------------------------------------ mutated programs
void mutated(Case& c) {
    Tape& t = c.t;
    static World* world = nullptr;
    static int uses = 0;
    lang::Cfg cfg;
    cfg.budget = 30 + (int) t.below(60);
    lang::Program p;
    lang::Gen g(t, p, cfg);
    g.program();
    Compiled m = compile("generated", lang::Printer().program(p));
    if (!m.ok()) c.fail("rejected: " + m.errors());
    auto& mod = m.module->mod;
    std::string why = judge(*mod);
    if (!why.empty()) c.fail("a compiled module is malformed: " + why + "\n" + module_text(*mod));
    size_t edits = 1 + t.below(3);
    std::string what;
    std::vector<u32> functions;
    for (u32 i = 0; i < mod->member_count(); ++i)
        if (function_of(*mod, i)) functions.push_back(i);
    if (functions.empty()) c.discard();
    for (size_t e = 0; e < edits; ++e) {
        auto& f = (*mod)[cmember(*mod, t.pick(functions)).as_function().id];
        auto& code = f.code();
        std::vector<Where> ins;
        decode_all(f, ins);
        switch (t.weighted({6, 3, 2, 2, 1, 1, 1})) {
        case 0: {
            // operands near the limits
            if (ins.empty()) break;
            auto& w = t.pick(ins);
            auto& in = *bc::info((u8) w.ins.op);
            if (in.kinds.empty()) break;
            size_t k = t.below(in.kinds.size());
            u64 v;
            switch (in.kinds[k]) {
            case bc::Reg: v = f.locals() - 2 + t.below(4); break;
            case bc::Param: v = t.below(f.params() + 2); break;
            case bc::Member: v = t.below(mod->member_count() + 2); break;
            case bc::Offset: v = t.chance(1, 2) ? ins[t.below(ins.size())].pos : t.below(code.size() + 2); break;
            case bc::U32: v = t.below(5); break;
            default: v = (u64) t.any_i64();
            }
            what += sfmt("operand %zu of %s at %u = %llu\n", k, in.name, w.pos, (unsigned long long) v);
            patch(f, w, k, v);
            break;
        }
        case 1:
            if (!code.empty()) {
                size_t p = t.below(code.size());
                code[p] = (tiro::byte) t.below(256);
                what += sfmt("byte %zu\n", p);
            }
            break;
        case 2:
            if (!ins.empty()) {
                // another instruction with the same length
                auto& w = t.pick(ins);
                auto& other = bc::ops()[t.below(bc::ops().size())];
                code[w.pos] = (tiro::byte) other.op;
                what += sfmt("%s at %u becomes %s\n", bc::info((u8) w.ins.op)->name, w.pos, other.name);
            }
            break;
        case 3:
            if (ins.size() > 1) {
                // without the last instructions
                u32 p = ins[1 + t.below(ins.size() - 1)].pos;
                code.resize(p);
                what += sfmt("truncated to %u\n", p);
            }
            break;
        case 4:
            f.locals((u32) t.below(f.locals() + 2));
            what += "locals\n";
            break;
        case 5:
            if (!f.handlers().empty()) {
                auto& h = f.handlers()[t.below(f.handlers().size())];
                u32 v = ins.empty() ? 0 : t.chance(3, 4) ? t.pick(ins).pos : (u32) t.below(code.size() + 1);
                switch (t.below(3)) {
                case 0: h.from = BytecodeOffset(v); break;
                case 1: h.to = BytecodeOffset(v); break;
                default: h.target = BytecodeOffset(v);
                }
                what += "handler\n";
            }
            break;
        default:
            f.type(f.type() == BytecodeFunctionType::Normal ? BytecodeFunctionType::Closure : BytecodeFunctionType::Normal);
            what += "function type\n";
        }
    }
    why = judge(*mod);
    c.describe(what + module_text(*mod));
    if (!world || ++uses % 200 == 0) delete world, world = new World;
    std::string message;
    if (why.empty()) {
        Vm vm(64u << 20);
        if (load(vm, mod, &message) != TIRO_OK) c.fail("a well-formed module is rejected: " + message);
    } else {
        if (load(world->vm, mod, &message) == TIRO_OK) c.fail("a malformed module is accepted: " + why);
        if (t.chance(1, 8)) world->usable(c);
    }
    c.label("malformed", !why.empty());
    c.label("well-formed", why.empty());
    c.nontrivial = !what.empty();
}

} // namespace

int main(int argc, char** argv) {
    pbt::Runner r("C13", "roundtrip: at least three instructions; modules: at least one function; malformed: all; mutated: at least one edit", {
        Suite{"roundtrip", 60000, 600000, roundtrip},
        Suite{"modules", 10000, 200000, modules},
        Suite{"malformed", 40000, 600000, malformed},
        Suite{"mutated", 6000, 150000, mutated},
    });
    return r.main(argc, argv);
}
