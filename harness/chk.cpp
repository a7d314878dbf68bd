// Contracts of the operand checks of machine instructions.
// SRC: parser_library/src/checking/instr_operand.cpp parser_library/src/context/instruction.cpp parser_library/src/checking/diagnostic_collector.cpp
// SRC: parser_library/src/semantics/operand_impls.cpp parser_library/src/expressions/mach_expr_term.cpp parser_library/src/expressions/mach_expression.cpp
// SRC: parser_library/src/context/ordinary_assembly/symbol.cpp parser_library/src/context/ordinary_assembly/address.cpp
// NOTE: the diagnostic factories diagnostic_op::error_M* are replaced by ones that record the code and the reported bounds
// CASES count_.*: up to three operands (all obligations discharged for this structure)
#include "vp.h"
#include "checking/instr_operand.h"
#include "context/instruction.h"
#include "diagnosable_ctx.h"
#include "ca_env.h"
#include "expressions/mach_expr_term.h"
#include "semantics/operand_impls.h"
using namespace hlasm_plugin::parser_library;
using namespace hlasm_plugin::parser_library::checking;
using T = machine_operand_type;
namespace {
int code_;
long long lo_, hi_;
diagnostic_op mk(int code, long long lo = 0, long long hi = 0)
{
    code_ = code;
    lo_ = lo;
    hi_ = hi;
    diagnostic_op d;
    d.severity = diagnostic_severity::error;
    d.code = "M";
    d.code.push_back((char)('0' + code / 100));
    d.code.push_back((char)('0' + code / 10 % 10));
    d.code.push_back((char)('0' + code % 10));
    return d;
}
} // namespace
namespace hlasm_plugin::parser_library {
#define D1(n) diagnostic_op diagnostic_op::error_M##n(const std::string&, const range&) { return mk(1##n - (1##n >= 1000 ? 1000 : 0)); }
diagnostic_op diagnostic_op::error_I999(const std::string&, const range&) { return mk(999); }
D1(003) D1(004) D1(010) D1(104) D1(110) D1(111) D1(112) D1(113) D1(114) D1(120) D1(121) D1(124) D1(131)
#undef D1
#define D3(n, t) diagnostic_op diagnostic_op::error_M##n(const std::string&, t a, t b, const range&) { return mk(n, a, b); }
D3(122, long long) D3(123, long long) D3(130, long long) D3(132, long long) D3(133, long long) D3(134, long long) D3(135, long long)
#undef D3
diagnostic_op diagnostic_op::error_optional_number_of_operands(const std::string&, int opt, int ops, const range&) { return mk(0, opt, ops); }
} // namespace hlasm_plugin::parser_library
namespace {
bool fits(long long v, const parameter& p)
{
    if (p.is_signed)
        return -(1ll << p.size) <= 2 * v && 2 * v < (1ll << p.size);
    return 0 <= v && v < (1ll << p.size);
}
parameter par(const char* n, T t, bool sgn, uint8_t size)
{
    (void)n;
    return parameter { sgn, size, t };
}
const parameter none { false, 0, T::NONE };
const range rg { position { 3, 4 }, position { 3, 9 } };
const range srg { position { 3, 0 }, position { 3, 20 } };
// displacement of 12 or 20 bits (or anything else up to 32)
parameter displ()
{
    bool s = vp_bool("signed displacement");
    return parameter { s, vp_in<uint8_t>("displacement size", 1, 32), T::DISPLC };
}
} // namespace
VP_ENTRY(chk_size)
{
    int v = vp_i32("value");
    uint8_t n = vp_in<uint8_t>("size", 1, 32);
    vp_assert(machine_operand::is_size_corresponding_signed(v, n) == (-(1ll << n) <= 2ll * v && 2ll * v < (1ll << n)), "signed field of n bits");
    vp_assert(machine_operand::is_size_corresponding_unsigned(v, n) == (0 <= v && (long long)v < (1ll << n)), "unsigned field of n bits");
    bool s = vp_bool("signed");
    parameter p { s, n, T::IMM };
    vp_assert(machine_operand::is_operand_corresponding(v, p) == fits(v, p), "signedness decides");
}
// a simple operand of a simple format
VP_ENTRY(chk_simple)
{
    int v = vp_i32("value");
    uint8_t kind = vp_in<uint8_t>("kind", 0, 5);
    uint8_t n = vp_in<uint8_t>("size", 1, 32);
    parameter p = kind == 0 ? parameter { false, n, T::REG }
        : kind == 1         ? parameter { false, n, T::MASK }
        : kind == 2         ? parameter { false, n, T::IMM }
        : kind == 3         ? parameter { true, n, T::IMM }
        : kind == 4         ? parameter { true, n, T::REG_IMM }
                            : parameter { false, n, T::VEC_REG };
    machine_operand_format f(p, none, none);
    one_operand op("X", v);
    op.operand_range = rg;
    diagnostic_op d;
    code_ = -1;
    bool r = op.check(d, f, "I", srg);
    bool ok = fits(v, p);
    vp_assert(r == ok, "accepted exactly when the value fits the field");
    if (ok)
        vp_assert(code_ == -1, "no diagnostic for a valid operand");
    else
    {
        vp_assert(code_ == (kind == 0 ? 120 : kind == 1 ? 121 : kind == 4 ? 123 : kind == 5 ? 124 : 122), "the diagnostic of the field");
        if (kind >= 2 && kind <= 4)
            vp_assert(lo_ == (kind == 2 ? 0 : -(1ll << n) / 2) && hi_ == (kind == 2 ? (1ll << n) - 1 : (1ll << n) / 2 - 1), "the reported bounds are the bounds of the field");
    }
}
// one value where an address is expected
VP_ENTRY(chk_displacement)
{
    int v = vp_i32("value");
    parameter p = displ();
    bool two = vp_bool("two");
    machine_operand_format f(p, two ? parameter { false, 4, T::DIS_REG } : none, parameter { false, 4, T::BASE });
    one_operand op("X", v);
    diagnostic_op d;
    code_ = -1;
    bool r = op.check(d, f, "I", srg);
    vp_assert(r == fits(v, p), "accepted exactly when the displacement fits");
    if (r)
        vp_assert(code_ == -1, "no diagnostic for a valid operand");
    else
        vp_assert(code_ == 130 && lo_ == (p.is_signed ? -(1ll << p.size) / 2 : 0) && hi_ == (p.is_signed ? (1ll << p.size) / 2 - 1 : (1ll << p.size) - 1), "M130 with the bounds of the displacement");
}
// an address where a simple operand is expected
VP_ENTRY(chk_address_for_simple)
{
    uint8_t kind = vp_in<uint8_t>("kind", 0, 4);
    uint8_t n = vp_in<uint8_t>("size", 1, 32);
    bool s = vp_bool("signed");
    T t = kind == 0 ? T::REG : kind == 1 ? T::MASK : kind == 2 ? T::IMM : kind == 3 ? T::REG_IMM : T::VEC_REG;
    machine_operand_format f(parameter { s, n, t }, none, none);
    address_operand op(address_state::UNRES, vp_i32("d"), vp_i32("x"), vp_i32("b"), (operand_state)vp_in<uint8_t>("state", 0, 3));
    diagnostic_op d;
    code_ = -1;
    vp_assert(!op.check(d, f, "I", srg), "an address is no simple operand");
    vp_assert(code_ == 110 + kind, "the diagnostic of the field");
}
// D(X,B), D(X), D(,B), D(B)
VP_ENTRY(chk_address)
{
    int dv = vp_i32("d"), x = vp_i32("x"), b = vp_i32("b");
    operand_state st = (operand_state)vp_in<uint8_t>("state", 0, 3);
    parameter p = displ();
    uint8_t kind = vp_in<uint8_t>("first", 0, 4);
    uint8_t n = vp_in<uint8_t>("first size", 1, 31);
    parameter first = kind == 0 ? none : parameter { false, n, kind == 1 ? T::LENGTH : kind == 2 ? T::REG : kind == 3 ? T::VEC_REG : T::DIS_REG };
    parameter base { false, vp_in<uint8_t>("base size", 1, 31), T::BASE };
    machine_operand_format f(p, first, base);
    // D(X) carries its only value in the second place
    address_operand op(address_state::UNRES, dv, x, b, st);
    diagnostic_op d;
    code_ = -1;
    bool r = op.check(d, f, "I", srg);
    if (st == operand_state::SECOND_OMITTED)
    {
        vp_assert(!r && code_ == 4, "D(X,) is never valid");
        return;
    }
    if (!fits(dv, p))
    {
        vp_assert(!r && code_ == 130, "displacement out of its range");
        vp_assert(lo_ == (p.is_signed ? -(1ll << p.size) / 2 : 0) && hi_ == (p.is_signed ? (1ll << p.size) / 2 - 1 : (1ll << p.size) - 1), "the reported bounds are the bounds of the displacement");
        return;
    }
    if (kind == 0)
    {
        if (st != operand_state::ONE_OP)
            vp_assert(!r && code_ == 104, "only D(B) is accepted");
        else
            vp_assert(r == fits(b, base) && (r || code_ == 131), "the base is a register");
        return;
    }
    bool hasb = st == operand_state::PRESENT || st == operand_state::FIRST_OMITTED;
    if (hasb && !fits(b, base))
    {
        vp_assert(!r && code_ == 131, "the base is a register");
        return;
    }
    if (st == operand_state::FIRST_OMITTED)
    {
        vp_assert(r && code_ == -1, "D(,B) with valid displacement and base is accepted");
        return;
    }
    long long v = st == operand_state::PRESENT ? x : b;
    long long top = kind == 1 ? (1ll << n) : (1ll << n) - 1; // a length of 2^n is stored as 2^n - 1
    bool ok = 0 <= v && v <= top;
    vp_assert(r == ok, "accepted exactly when index, register or length fits");
    if (ok)
        vp_assert(code_ == -1, "no diagnostic for a valid operand");
    else
        vp_assert(code_ == (kind == 1 ? 132 : kind == 2 ? 133 : kind == 3 ? 134 : 135) && lo_ == 0 && hi_ == top, "the diagnostic of the field with its bounds");
}
VP_ENTRY(chk_resolved)
{
    bool valid = vp_bool("valid");
    machine_operand_format f(parameter { false, 12, T::DISPLC }, vp_bool("two") ? parameter { false, 4, T::DIS_REG } : none, parameter { false, 4, T::BASE });
    address_operand op(valid ? address_state::RES_VALID : address_state::RES_INVALID, vp_i32("d"), vp_i32("x"), vp_i32("b"), operand_state::ONE_OP);
    diagnostic_op d;
    code_ = -1;
    bool r = op.check(d, f, "I", srg);
    vp_assert(r == valid && code_ == (valid ? -1 : 10), "resolved addresses");
    empty_operand e;
    vp_assert(!e.check(d, f, "I", srg) && code_ == 3, "an omitted operand is never valid");
}
// ---------------------------------------------------------------- operand list
namespace {
struct probe final : machine_operand
{
    bool ok;
    mutable int seen = 0;
    mutable uint8_t fmt = 0;
    bool check(diagnostic_op& diag, const machine_operand_format f, const std::string&, const range&) const override
    {
        ++seen;
        fmt = f.identifier.size;
        if (!ok)
            diag = mk(100 + f.identifier.size);
        return ok;
    }
};
struct dctx final : diagnosable_ctx
{
    dctx(context::hlasm_context& c)
        : diagnosable_ctx(c)
    {}
    void collect_diags() const override {}
};
} // namespace
VP_ENTRY(count_check)
{
    size_t nf = vp_in<size_t>("formats", 0, 3), na = vp_in<size_t>("operands", 0, 3);
    int opt = vp_in<int>("optional", 0, 3);
    vp_assume(opt <= (int)nf);
    bool ok[3] = { vp_bool("ok0"), vp_bool("ok1"), vp_bool("ok2") };
    std::vector<machine_operand_format> fs;
    for (size_t i = 0; i < nf; ++i)
        fs.push_back(machine_operand_format(parameter { false, (uint8_t)(i + 1), T::IMM }, none, none));
    context::machine_instruction in("I", context::mach_format::RR, fs, opt, 0);
    probe p[3];
    std::vector<const machine_operand*> ops;
    for (size_t i = 0; i < na; ++i)
    {
        p[i].ok = ok[i];
        ops.push_back(&p[i]);
    }
    alignas(64) static char raw[8192];
    dctx dc(*(context::hlasm_context*)raw);
    context::processing_stack_t st;
    st.emplace_back(location(), *(const context::code_scope*)raw, context::file_processing_type::OPENCODE);
    diagnostic_collector col(&dc, st);
    dc.diags().clear();
    bool r = in.check("I", ops, srg, col);
    size_t added_ = dc.diags().size();
    if (na > nf || na + opt < nf)
    {
        vp_assert(!r && added_ == 1 && code_ == 0 && lo_ == opt && hi_ == (int)nf, "wrong number of operands is reported once");
        for (size_t i = 0; i < na; ++i)
            vp_assert(p[i].seen == 0, "and nothing else is checked");
        return;
    }
    bool all = true;
    size_t bad = 0;
    for (size_t i = 0; i < na; ++i)
    {
        vp_assert(p[i].seen == 1 && p[i].fmt == i + 1, "every operand is checked against the format at its place");
        if (!ok[i])
        {
            all = false;
            vp_assert(added_ > bad && dc.diags()[bad].code[3] == (char)('1' + i), "every invalid operand is reported, in order");
            ++bad;
        }
    }
    vp_assert(r == all && added_ == bad, "valid exactly when every operand is");
}
// ---------------------------------------------------------------- values handed to the checks
namespace {
using expressions::mach_expr_constant;
expressions::mach_expr_ptr cst(int v)
{
    return std::make_unique<mach_expr_constant>(v, range());
}
} // namespace
VP_ENTRY(value_address)
{
    int d = vp_i32("d"), x = vp_i32("x"), b = vp_i32("b");
    bool hx = vp_bool("has first"), hb = vp_bool("has second");
    operand_state st = (operand_state)vp_in<uint8_t>("state", 0, 3);
    semantics::address_machine_operand op(cst(d), hx ? cst(x) : nullptr, hb ? cst(b) : nullptr, rg, st);
    alignas(64) static char raw[8192];
    auto r = op.get_operand_value(*(context::dependency_solver*)raw);
    auto* a = dynamic_cast<const address_operand*>(r.get());
    vp_assert(a && a->state == address_state::UNRES, "an address operand");
    vp_assert(a->displacement == d, "its displacement");
    vp_assert(a->first_op == (hx ? x : 0) && a->second_op == (hb ? b : 0), "its subfields");
    vp_assert(a->op_state == (hx && hb ? operand_state::PRESENT : st), "its form");
}
VP_ENTRY(value_expr)
{
    int v = vp_i32("v");
    semantics::expr_machine_operand op(cst(v), rg);
    alignas(64) static char raw[8192];
    uint8_t h = vp_in<uint8_t>("hint", 0, 9);
    auto r = vp_bool("hinted") ? op.get_operand_value(*(context::dependency_solver*)raw, (T)h) : op.get_operand_value(*(context::dependency_solver*)raw);
    auto* a = dynamic_cast<const one_operand*>(r.get());
    vp_assert(a && a->value == v && !a->is_default, "an absolute expression is its value");
}
