// The instructions of the bytecode and their operands: how the writer emits them and how visitors see them.
#pragma once
#include "bytecode/instruction.hpp"
#include "bytecode/writer.hpp"
#include <cstring>
#include <string>
#include <vector>

namespace bc {
using u8 = uint8_t;
using u32 = uint32_t;
using u64 = uint64_t;
using i64 = int64_t;
using Op = tiro::BytecodeOp;
enum Kind { Reg, Param, Member, Offset, U32, I64, F64 };
inline u64 bits_of(double d) { u64 v; std::memcpy(&v, &d, 8); return v; }
inline double float_of(u64 v) { double d; std::memcpy(&d, &v, 8); return d; }
struct OpInfo {
    const char* name;
    Op op;
    std::vector<Kind> kinds;
    std::vector<const char*> fields;
};
struct Ins {
    Op op;
    std::vector<u64> v;
};
inline const std::vector<OpInfo>& ops() {
    static const std::vector<OpInfo> t{
        {"LoadNull", Op::LoadNull, {Reg}, {"target"}},
        {"LoadFalse", Op::LoadFalse, {Reg}, {"target"}},
        {"LoadTrue", Op::LoadTrue, {Reg}, {"target"}},
        {"LoadInt", Op::LoadInt, {I64, Reg}, {"constant", "target"}},
        {"LoadFloat", Op::LoadFloat, {F64, Reg}, {"constant", "target"}},
        {"LoadParam", Op::LoadParam, {Param, Reg}, {"source", "target"}},
        {"StoreParam", Op::StoreParam, {Reg, Param}, {"source", "target"}},
        {"LoadModule", Op::LoadModule, {Member, Reg}, {"source", "target"}},
        {"StoreModule", Op::StoreModule, {Reg, Member}, {"source", "target"}},
        {"LoadMember", Op::LoadMember, {Reg, Member, Reg}, {"object", "name", "target"}},
        {"StoreMember", Op::StoreMember, {Reg, Reg, Member}, {"source", "object", "name"}},
        {"LoadTupleMember", Op::LoadTupleMember, {Reg, U32, Reg}, {"tuple", "index", "target"}},
        {"StoreTupleMember", Op::StoreTupleMember, {Reg, Reg, U32}, {"source", "tuple", "index"}},
        {"LoadIndex", Op::LoadIndex, {Reg, Reg, Reg}, {"array", "index", "target"}},
        {"StoreIndex", Op::StoreIndex, {Reg, Reg, Reg}, {"source", "array", "index"}},
        {"LoadClosure", Op::LoadClosure, {Reg}, {"target"}},
        {"LoadEnv", Op::LoadEnv, {Reg, U32, U32, Reg}, {"env", "level", "index", "target"}},
        {"StoreEnv", Op::StoreEnv, {Reg, Reg, U32, U32}, {"source", "env", "level", "index"}},
        {"Add", Op::Add, {Reg, Reg, Reg}, {"lhs", "rhs", "target"}},
        {"Sub", Op::Sub, {Reg, Reg, Reg}, {"lhs", "rhs", "target"}},
        {"Mul", Op::Mul, {Reg, Reg, Reg}, {"lhs", "rhs", "target"}},
        {"Div", Op::Div, {Reg, Reg, Reg}, {"lhs", "rhs", "target"}},
        {"Mod", Op::Mod, {Reg, Reg, Reg}, {"lhs", "rhs", "target"}},
        {"Pow", Op::Pow, {Reg, Reg, Reg}, {"lhs", "rhs", "target"}},
        {"UAdd", Op::UAdd, {Reg, Reg}, {"value", "target"}},
        {"UNeg", Op::UNeg, {Reg, Reg}, {"value", "target"}},
        {"LSh", Op::LSh, {Reg, Reg, Reg}, {"lhs", "rhs", "target"}},
        {"RSh", Op::RSh, {Reg, Reg, Reg}, {"lhs", "rhs", "target"}},
        {"BAnd", Op::BAnd, {Reg, Reg, Reg}, {"lhs", "rhs", "target"}},
        {"BOr", Op::BOr, {Reg, Reg, Reg}, {"lhs", "rhs", "target"}},
        {"BXor", Op::BXor, {Reg, Reg, Reg}, {"lhs", "rhs", "target"}},
        {"BNot", Op::BNot, {Reg, Reg}, {"value", "target"}},
        {"Gt", Op::Gt, {Reg, Reg, Reg}, {"lhs", "rhs", "target"}},
        {"Gte", Op::Gte, {Reg, Reg, Reg}, {"lhs", "rhs", "target"}},
        {"Lt", Op::Lt, {Reg, Reg, Reg}, {"lhs", "rhs", "target"}},
        {"Lte", Op::Lte, {Reg, Reg, Reg}, {"lhs", "rhs", "target"}},
        {"Eq", Op::Eq, {Reg, Reg, Reg}, {"lhs", "rhs", "target"}},
        {"NEq", Op::NEq, {Reg, Reg, Reg}, {"lhs", "rhs", "target"}},
        {"LNot", Op::LNot, {Reg, Reg}, {"value", "target"}},
        {"Array", Op::Array, {U32, Reg}, {"count", "target"}},
        {"Tuple", Op::Tuple, {U32, Reg}, {"count", "target"}},
        {"Set", Op::Set, {U32, Reg}, {"count", "target"}},
        {"Map", Op::Map, {U32, Reg}, {"count", "target"}},
        {"Env", Op::Env, {Reg, U32, Reg}, {"parent", "size", "target"}},
        {"Closure", Op::Closure, {Member, Reg, Reg}, {"tmpl", "env", "target"}},
        {"Record", Op::Record, {Member, Reg}, {"schema", "target"}},
        {"Iterator", Op::Iterator, {Reg, Reg}, {"container", "target"}},
        {"IteratorNext", Op::IteratorNext, {Reg, Reg, Reg}, {"iterator", "valid", "value"}},
        {"Formatter", Op::Formatter, {Reg}, {"target"}},
        {"AppendFormat", Op::AppendFormat, {Reg, Reg}, {"value", "formatter"}},
        {"FormatResult", Op::FormatResult, {Reg, Reg}, {"formatter", "target"}},
        {"Copy", Op::Copy, {Reg, Reg}, {"source", "target"}},
        {"Swap", Op::Swap, {Reg, Reg}, {"a", "b"}},
        {"Push", Op::Push, {Reg}, {"value"}},
        {"Pop", Op::Pop, {}, {}},
        {"PopTo", Op::PopTo, {Reg}, {"target"}},
        {"Jmp", Op::Jmp, {Offset}, {"offset"}},
        {"JmpTrue", Op::JmpTrue, {Reg, Offset}, {"condition", "offset"}},
        {"JmpFalse", Op::JmpFalse, {Reg, Offset}, {"condition", "offset"}},
        {"JmpNull", Op::JmpNull, {Reg, Offset}, {"condition", "offset"}},
        {"JmpNotNull", Op::JmpNotNull, {Reg, Offset}, {"condition", "offset"}},
        {"Call", Op::Call, {Reg, U32}, {"function", "count"}},
        {"LoadMethod", Op::LoadMethod, {Reg, Member, Reg, Reg}, {"object", "name", "thiz", "method"}},
        {"CallMethod", Op::CallMethod, {Reg, U32}, {"method", "count"}},
        {"Return", Op::Return, {Reg}, {"value"}},
        {"Rethrow", Op::Rethrow, {}, {}},
        {"AssertFail", Op::AssertFail, {Reg, Reg}, {"expr", "message"}},
    };
    return t;
}
inline const OpInfo* info(u8 raw) {
    for (auto& i : ops())
        if ((u8) i.op == raw) return &i;
    return nullptr;
}
// Jump operands are passed as labels if there is a map from values to labels.
template<typename LabelOf>
void emit(tiro::BytecodeWriter& w, const Ins& ins, LabelOf&& label_of) {
    auto& v = ins.v;
    tiro::BytecodeLabel label;
    switch (ins.op) {
    case Op::LoadNull: w.load_null(tiro::BytecodeRegister((u32) v[0])); break;
    case Op::LoadFalse: w.load_false(tiro::BytecodeRegister((u32) v[0])); break;
    case Op::LoadTrue: w.load_true(tiro::BytecodeRegister((u32) v[0])); break;
    case Op::LoadInt: w.load_int((i64) v[0], tiro::BytecodeRegister((u32) v[1])); break;
    case Op::LoadFloat: w.load_float(float_of(v[0]), tiro::BytecodeRegister((u32) v[1])); break;
    case Op::LoadParam: w.load_param(tiro::BytecodeParam((u32) v[0]), tiro::BytecodeRegister((u32) v[1])); break;
    case Op::StoreParam: w.store_param(tiro::BytecodeRegister((u32) v[0]), tiro::BytecodeParam((u32) v[1])); break;
    case Op::LoadModule: w.load_module(tiro::BytecodeMemberId((u32) v[0]), tiro::BytecodeRegister((u32) v[1])); break;
    case Op::StoreModule: w.store_module(tiro::BytecodeRegister((u32) v[0]), tiro::BytecodeMemberId((u32) v[1])); break;
    case Op::LoadMember: w.load_member(tiro::BytecodeRegister((u32) v[0]), tiro::BytecodeMemberId((u32) v[1]), tiro::BytecodeRegister((u32) v[2])); break;
    case Op::StoreMember: w.store_member(tiro::BytecodeRegister((u32) v[0]), tiro::BytecodeRegister((u32) v[1]), tiro::BytecodeMemberId((u32) v[2])); break;
    case Op::LoadTupleMember: w.load_tuple_member(tiro::BytecodeRegister((u32) v[0]), (u32) v[1], tiro::BytecodeRegister((u32) v[2])); break;
    case Op::StoreTupleMember: w.store_tuple_member(tiro::BytecodeRegister((u32) v[0]), tiro::BytecodeRegister((u32) v[1]), (u32) v[2]); break;
    case Op::LoadIndex: w.load_index(tiro::BytecodeRegister((u32) v[0]), tiro::BytecodeRegister((u32) v[1]), tiro::BytecodeRegister((u32) v[2])); break;
    case Op::StoreIndex: w.store_index(tiro::BytecodeRegister((u32) v[0]), tiro::BytecodeRegister((u32) v[1]), tiro::BytecodeRegister((u32) v[2])); break;
    case Op::LoadClosure: w.load_closure(tiro::BytecodeRegister((u32) v[0])); break;
    case Op::LoadEnv: w.load_env(tiro::BytecodeRegister((u32) v[0]), (u32) v[1], (u32) v[2], tiro::BytecodeRegister((u32) v[3])); break;
    case Op::StoreEnv: w.store_env(tiro::BytecodeRegister((u32) v[0]), tiro::BytecodeRegister((u32) v[1]), (u32) v[2], (u32) v[3]); break;
    case Op::Add: w.add(tiro::BytecodeRegister((u32) v[0]), tiro::BytecodeRegister((u32) v[1]), tiro::BytecodeRegister((u32) v[2])); break;
    case Op::Sub: w.sub(tiro::BytecodeRegister((u32) v[0]), tiro::BytecodeRegister((u32) v[1]), tiro::BytecodeRegister((u32) v[2])); break;
    case Op::Mul: w.mul(tiro::BytecodeRegister((u32) v[0]), tiro::BytecodeRegister((u32) v[1]), tiro::BytecodeRegister((u32) v[2])); break;
    case Op::Div: w.div(tiro::BytecodeRegister((u32) v[0]), tiro::BytecodeRegister((u32) v[1]), tiro::BytecodeRegister((u32) v[2])); break;
    case Op::Mod: w.mod(tiro::BytecodeRegister((u32) v[0]), tiro::BytecodeRegister((u32) v[1]), tiro::BytecodeRegister((u32) v[2])); break;
    case Op::Pow: w.pow(tiro::BytecodeRegister((u32) v[0]), tiro::BytecodeRegister((u32) v[1]), tiro::BytecodeRegister((u32) v[2])); break;
    case Op::UAdd: w.uadd(tiro::BytecodeRegister((u32) v[0]), tiro::BytecodeRegister((u32) v[1])); break;
    case Op::UNeg: w.uneg(tiro::BytecodeRegister((u32) v[0]), tiro::BytecodeRegister((u32) v[1])); break;
    case Op::LSh: w.lsh(tiro::BytecodeRegister((u32) v[0]), tiro::BytecodeRegister((u32) v[1]), tiro::BytecodeRegister((u32) v[2])); break;
    case Op::RSh: w.rsh(tiro::BytecodeRegister((u32) v[0]), tiro::BytecodeRegister((u32) v[1]), tiro::BytecodeRegister((u32) v[2])); break;
    case Op::BAnd: w.band(tiro::BytecodeRegister((u32) v[0]), tiro::BytecodeRegister((u32) v[1]), tiro::BytecodeRegister((u32) v[2])); break;
    case Op::BOr: w.bor(tiro::BytecodeRegister((u32) v[0]), tiro::BytecodeRegister((u32) v[1]), tiro::BytecodeRegister((u32) v[2])); break;
    case Op::BXor: w.bxor(tiro::BytecodeRegister((u32) v[0]), tiro::BytecodeRegister((u32) v[1]), tiro::BytecodeRegister((u32) v[2])); break;
    case Op::BNot: w.bnot(tiro::BytecodeRegister((u32) v[0]), tiro::BytecodeRegister((u32) v[1])); break;
    case Op::Gt: w.gt(tiro::BytecodeRegister((u32) v[0]), tiro::BytecodeRegister((u32) v[1]), tiro::BytecodeRegister((u32) v[2])); break;
    case Op::Gte: w.gte(tiro::BytecodeRegister((u32) v[0]), tiro::BytecodeRegister((u32) v[1]), tiro::BytecodeRegister((u32) v[2])); break;
    case Op::Lt: w.lt(tiro::BytecodeRegister((u32) v[0]), tiro::BytecodeRegister((u32) v[1]), tiro::BytecodeRegister((u32) v[2])); break;
    case Op::Lte: w.lte(tiro::BytecodeRegister((u32) v[0]), tiro::BytecodeRegister((u32) v[1]), tiro::BytecodeRegister((u32) v[2])); break;
    case Op::Eq: w.eq(tiro::BytecodeRegister((u32) v[0]), tiro::BytecodeRegister((u32) v[1]), tiro::BytecodeRegister((u32) v[2])); break;
    case Op::NEq: w.neq(tiro::BytecodeRegister((u32) v[0]), tiro::BytecodeRegister((u32) v[1]), tiro::BytecodeRegister((u32) v[2])); break;
    case Op::LNot: w.lnot(tiro::BytecodeRegister((u32) v[0]), tiro::BytecodeRegister((u32) v[1])); break;
    case Op::Array: w.array((u32) v[0], tiro::BytecodeRegister((u32) v[1])); break;
    case Op::Tuple: w.tuple((u32) v[0], tiro::BytecodeRegister((u32) v[1])); break;
    case Op::Set: w.set((u32) v[0], tiro::BytecodeRegister((u32) v[1])); break;
    case Op::Map: w.map((u32) v[0], tiro::BytecodeRegister((u32) v[1])); break;
    case Op::Env: w.env(tiro::BytecodeRegister((u32) v[0]), (u32) v[1], tiro::BytecodeRegister((u32) v[2])); break;
    case Op::Closure: w.closure(tiro::BytecodeMemberId((u32) v[0]), tiro::BytecodeRegister((u32) v[1]), tiro::BytecodeRegister((u32) v[2])); break;
    case Op::Record: w.record(tiro::BytecodeMemberId((u32) v[0]), tiro::BytecodeRegister((u32) v[1])); break;
    case Op::Iterator: w.iterator(tiro::BytecodeRegister((u32) v[0]), tiro::BytecodeRegister((u32) v[1])); break;
    case Op::IteratorNext: w.iterator_next(tiro::BytecodeRegister((u32) v[0]), tiro::BytecodeRegister((u32) v[1]), tiro::BytecodeRegister((u32) v[2])); break;
    case Op::Formatter: w.formatter(tiro::BytecodeRegister((u32) v[0])); break;
    case Op::AppendFormat: w.append_format(tiro::BytecodeRegister((u32) v[0]), tiro::BytecodeRegister((u32) v[1])); break;
    case Op::FormatResult: w.format_result(tiro::BytecodeRegister((u32) v[0]), tiro::BytecodeRegister((u32) v[1])); break;
    case Op::Copy: w.copy(tiro::BytecodeRegister((u32) v[0]), tiro::BytecodeRegister((u32) v[1])); break;
    case Op::Swap: w.swap(tiro::BytecodeRegister((u32) v[0]), tiro::BytecodeRegister((u32) v[1])); break;
    case Op::Push: w.push(tiro::BytecodeRegister((u32) v[0])); break;
    case Op::Pop: w.pop(); break;
    case Op::PopTo: w.pop_to(tiro::BytecodeRegister((u32) v[0])); break;
    case Op::Jmp:
        if (label_of(ins, label)) w.jmp(label);
        else w.jmp(tiro::BytecodeOffset((u32) v[0]));
        break;
    case Op::JmpTrue:
        if (label_of(ins, label)) w.jmp_true(tiro::BytecodeRegister((u32) v[0]), label);
        else w.jmp_true(tiro::BytecodeRegister((u32) v[0]), tiro::BytecodeOffset((u32) v[1]));
        break;
    case Op::JmpFalse:
        if (label_of(ins, label)) w.jmp_false(tiro::BytecodeRegister((u32) v[0]), label);
        else w.jmp_false(tiro::BytecodeRegister((u32) v[0]), tiro::BytecodeOffset((u32) v[1]));
        break;
    case Op::JmpNull:
        if (label_of(ins, label)) w.jmp_null(tiro::BytecodeRegister((u32) v[0]), label);
        else w.jmp_null(tiro::BytecodeRegister((u32) v[0]), tiro::BytecodeOffset((u32) v[1]));
        break;
    case Op::JmpNotNull:
        if (label_of(ins, label)) w.jmp_not_null(tiro::BytecodeRegister((u32) v[0]), label);
        else w.jmp_not_null(tiro::BytecodeRegister((u32) v[0]), tiro::BytecodeOffset((u32) v[1]));
        break;
    case Op::Call: w.call(tiro::BytecodeRegister((u32) v[0]), (u32) v[1]); break;
    case Op::LoadMethod: w.load_method(tiro::BytecodeRegister((u32) v[0]), tiro::BytecodeMemberId((u32) v[1]), tiro::BytecodeRegister((u32) v[2]), tiro::BytecodeRegister((u32) v[3])); break;
    case Op::CallMethod: w.call_method(tiro::BytecodeRegister((u32) v[0]), (u32) v[1]); break;
    case Op::Return: w.ret(tiro::BytecodeRegister((u32) v[0])); break;
    case Op::Rethrow: w.rethrow(); break;
    case Op::AssertFail: w.assert_fail(tiro::BytecodeRegister((u32) v[0]), tiro::BytecodeRegister((u32) v[1])); break;
    }
}
struct Decoder {
    Ins out{};
    void visit_load_null(const tiro::BytecodeInstr::LoadNull& x) { (void) x; out = {Op::LoadNull, {x.target.value()}}; }
    void visit_load_false(const tiro::BytecodeInstr::LoadFalse& x) { (void) x; out = {Op::LoadFalse, {x.target.value()}}; }
    void visit_load_true(const tiro::BytecodeInstr::LoadTrue& x) { (void) x; out = {Op::LoadTrue, {x.target.value()}}; }
    void visit_load_int(const tiro::BytecodeInstr::LoadInt& x) { (void) x; out = {Op::LoadInt, {(u64) x.constant, x.target.value()}}; }
    void visit_load_float(const tiro::BytecodeInstr::LoadFloat& x) { (void) x; out = {Op::LoadFloat, {bits_of(x.constant), x.target.value()}}; }
    void visit_load_param(const tiro::BytecodeInstr::LoadParam& x) { (void) x; out = {Op::LoadParam, {x.source.value(), x.target.value()}}; }
    void visit_store_param(const tiro::BytecodeInstr::StoreParam& x) { (void) x; out = {Op::StoreParam, {x.source.value(), x.target.value()}}; }
    void visit_load_module(const tiro::BytecodeInstr::LoadModule& x) { (void) x; out = {Op::LoadModule, {x.source.value(), x.target.value()}}; }
    void visit_store_module(const tiro::BytecodeInstr::StoreModule& x) { (void) x; out = {Op::StoreModule, {x.source.value(), x.target.value()}}; }
    void visit_load_member(const tiro::BytecodeInstr::LoadMember& x) { (void) x; out = {Op::LoadMember, {x.object.value(), x.name.value(), x.target.value()}}; }
    void visit_store_member(const tiro::BytecodeInstr::StoreMember& x) { (void) x; out = {Op::StoreMember, {x.source.value(), x.object.value(), x.name.value()}}; }
    void visit_load_tuple_member(const tiro::BytecodeInstr::LoadTupleMember& x) { (void) x; out = {Op::LoadTupleMember, {x.tuple.value(), x.index, x.target.value()}}; }
    void visit_store_tuple_member(const tiro::BytecodeInstr::StoreTupleMember& x) { (void) x; out = {Op::StoreTupleMember, {x.source.value(), x.tuple.value(), x.index}}; }
    void visit_load_index(const tiro::BytecodeInstr::LoadIndex& x) { (void) x; out = {Op::LoadIndex, {x.array.value(), x.index.value(), x.target.value()}}; }
    void visit_store_index(const tiro::BytecodeInstr::StoreIndex& x) { (void) x; out = {Op::StoreIndex, {x.source.value(), x.array.value(), x.index.value()}}; }
    void visit_load_closure(const tiro::BytecodeInstr::LoadClosure& x) { (void) x; out = {Op::LoadClosure, {x.target.value()}}; }
    void visit_load_env(const tiro::BytecodeInstr::LoadEnv& x) { (void) x; out = {Op::LoadEnv, {x.env.value(), x.level, x.index, x.target.value()}}; }
    void visit_store_env(const tiro::BytecodeInstr::StoreEnv& x) { (void) x; out = {Op::StoreEnv, {x.source.value(), x.env.value(), x.level, x.index}}; }
    void visit_add(const tiro::BytecodeInstr::Add& x) { (void) x; out = {Op::Add, {x.lhs.value(), x.rhs.value(), x.target.value()}}; }
    void visit_sub(const tiro::BytecodeInstr::Sub& x) { (void) x; out = {Op::Sub, {x.lhs.value(), x.rhs.value(), x.target.value()}}; }
    void visit_mul(const tiro::BytecodeInstr::Mul& x) { (void) x; out = {Op::Mul, {x.lhs.value(), x.rhs.value(), x.target.value()}}; }
    void visit_div(const tiro::BytecodeInstr::Div& x) { (void) x; out = {Op::Div, {x.lhs.value(), x.rhs.value(), x.target.value()}}; }
    void visit_mod(const tiro::BytecodeInstr::Mod& x) { (void) x; out = {Op::Mod, {x.lhs.value(), x.rhs.value(), x.target.value()}}; }
    void visit_pow(const tiro::BytecodeInstr::Pow& x) { (void) x; out = {Op::Pow, {x.lhs.value(), x.rhs.value(), x.target.value()}}; }
    void visit_uadd(const tiro::BytecodeInstr::UAdd& x) { (void) x; out = {Op::UAdd, {x.value.value(), x.target.value()}}; }
    void visit_uneg(const tiro::BytecodeInstr::UNeg& x) { (void) x; out = {Op::UNeg, {x.value.value(), x.target.value()}}; }
    void visit_lsh(const tiro::BytecodeInstr::LSh& x) { (void) x; out = {Op::LSh, {x.lhs.value(), x.rhs.value(), x.target.value()}}; }
    void visit_rsh(const tiro::BytecodeInstr::RSh& x) { (void) x; out = {Op::RSh, {x.lhs.value(), x.rhs.value(), x.target.value()}}; }
    void visit_band(const tiro::BytecodeInstr::BAnd& x) { (void) x; out = {Op::BAnd, {x.lhs.value(), x.rhs.value(), x.target.value()}}; }
    void visit_bor(const tiro::BytecodeInstr::BOr& x) { (void) x; out = {Op::BOr, {x.lhs.value(), x.rhs.value(), x.target.value()}}; }
    void visit_bxor(const tiro::BytecodeInstr::BXor& x) { (void) x; out = {Op::BXor, {x.lhs.value(), x.rhs.value(), x.target.value()}}; }
    void visit_bnot(const tiro::BytecodeInstr::BNot& x) { (void) x; out = {Op::BNot, {x.value.value(), x.target.value()}}; }
    void visit_gt(const tiro::BytecodeInstr::Gt& x) { (void) x; out = {Op::Gt, {x.lhs.value(), x.rhs.value(), x.target.value()}}; }
    void visit_gte(const tiro::BytecodeInstr::Gte& x) { (void) x; out = {Op::Gte, {x.lhs.value(), x.rhs.value(), x.target.value()}}; }
    void visit_lt(const tiro::BytecodeInstr::Lt& x) { (void) x; out = {Op::Lt, {x.lhs.value(), x.rhs.value(), x.target.value()}}; }
    void visit_lte(const tiro::BytecodeInstr::Lte& x) { (void) x; out = {Op::Lte, {x.lhs.value(), x.rhs.value(), x.target.value()}}; }
    void visit_eq(const tiro::BytecodeInstr::Eq& x) { (void) x; out = {Op::Eq, {x.lhs.value(), x.rhs.value(), x.target.value()}}; }
    void visit_neq(const tiro::BytecodeInstr::NEq& x) { (void) x; out = {Op::NEq, {x.lhs.value(), x.rhs.value(), x.target.value()}}; }
    void visit_lnot(const tiro::BytecodeInstr::LNot& x) { (void) x; out = {Op::LNot, {x.value.value(), x.target.value()}}; }
    void visit_array(const tiro::BytecodeInstr::Array& x) { (void) x; out = {Op::Array, {x.count, x.target.value()}}; }
    void visit_tuple(const tiro::BytecodeInstr::Tuple& x) { (void) x; out = {Op::Tuple, {x.count, x.target.value()}}; }
    void visit_set(const tiro::BytecodeInstr::Set& x) { (void) x; out = {Op::Set, {x.count, x.target.value()}}; }
    void visit_map(const tiro::BytecodeInstr::Map& x) { (void) x; out = {Op::Map, {x.count, x.target.value()}}; }
    void visit_env(const tiro::BytecodeInstr::Env& x) { (void) x; out = {Op::Env, {x.parent.value(), x.size, x.target.value()}}; }
    void visit_closure(const tiro::BytecodeInstr::Closure& x) { (void) x; out = {Op::Closure, {x.tmpl.value(), x.env.value(), x.target.value()}}; }
    void visit_record(const tiro::BytecodeInstr::Record& x) { (void) x; out = {Op::Record, {x.schema.value(), x.target.value()}}; }
    void visit_iterator(const tiro::BytecodeInstr::Iterator& x) { (void) x; out = {Op::Iterator, {x.container.value(), x.target.value()}}; }
    void visit_iterator_next(const tiro::BytecodeInstr::IteratorNext& x) { (void) x; out = {Op::IteratorNext, {x.iterator.value(), x.valid.value(), x.value.value()}}; }
    void visit_formatter(const tiro::BytecodeInstr::Formatter& x) { (void) x; out = {Op::Formatter, {x.target.value()}}; }
    void visit_append_format(const tiro::BytecodeInstr::AppendFormat& x) { (void) x; out = {Op::AppendFormat, {x.value.value(), x.formatter.value()}}; }
    void visit_format_result(const tiro::BytecodeInstr::FormatResult& x) { (void) x; out = {Op::FormatResult, {x.formatter.value(), x.target.value()}}; }
    void visit_copy(const tiro::BytecodeInstr::Copy& x) { (void) x; out = {Op::Copy, {x.source.value(), x.target.value()}}; }
    void visit_swap(const tiro::BytecodeInstr::Swap& x) { (void) x; out = {Op::Swap, {x.a.value(), x.b.value()}}; }
    void visit_push(const tiro::BytecodeInstr::Push& x) { (void) x; out = {Op::Push, {x.value.value()}}; }
    void visit_pop(const tiro::BytecodeInstr::Pop& x) { (void) x; out = {Op::Pop, {}}; }
    void visit_pop_to(const tiro::BytecodeInstr::PopTo& x) { (void) x; out = {Op::PopTo, {x.target.value()}}; }
    void visit_jmp(const tiro::BytecodeInstr::Jmp& x) { (void) x; out = {Op::Jmp, {x.offset.value()}}; }
    void visit_jmp_true(const tiro::BytecodeInstr::JmpTrue& x) { (void) x; out = {Op::JmpTrue, {x.condition.value(), x.offset.value()}}; }
    void visit_jmp_false(const tiro::BytecodeInstr::JmpFalse& x) { (void) x; out = {Op::JmpFalse, {x.condition.value(), x.offset.value()}}; }
    void visit_jmp_null(const tiro::BytecodeInstr::JmpNull& x) { (void) x; out = {Op::JmpNull, {x.condition.value(), x.offset.value()}}; }
    void visit_jmp_not_null(const tiro::BytecodeInstr::JmpNotNull& x) { (void) x; out = {Op::JmpNotNull, {x.condition.value(), x.offset.value()}}; }
    void visit_call(const tiro::BytecodeInstr::Call& x) { (void) x; out = {Op::Call, {x.function.value(), x.count}}; }
    void visit_load_method(const tiro::BytecodeInstr::LoadMethod& x) { (void) x; out = {Op::LoadMethod, {x.object.value(), x.name.value(), x.thiz.value(), x.method.value()}}; }
    void visit_call_method(const tiro::BytecodeInstr::CallMethod& x) { (void) x; out = {Op::CallMethod, {x.method.value(), x.count}}; }
    void visit_return(const tiro::BytecodeInstr::Return& x) { (void) x; out = {Op::Return, {x.value.value()}}; }
    void visit_rethrow(const tiro::BytecodeInstr::Rethrow& x) { (void) x; out = {Op::Rethrow, {}}; }
    void visit_assert_fail(const tiro::BytecodeInstr::AssertFail& x) { (void) x; out = {Op::AssertFail, {x.expr.value(), x.message.value()}}; }
};
inline Ins decode(const tiro::BytecodeInstr& i) {
    Decoder d;
    i.visit(d);
    return d.out;
}
} // namespace bc
