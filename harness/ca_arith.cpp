// Contracts of conditional-assembly integer arithmetic, shifts, logic and comparison (SETA/SETB expressions).
// SRC: parser_library/src/expressions/conditional_assembly/ca_operator_binary.cpp parser_library/src/expressions/conditional_assembly/ca_operator_unary.cpp
// SRC: parser_library/src/expressions/conditional_assembly/ca_expression.cpp parser_library/src/expressions/conditional_assembly/ca_expr_policy.cpp
// SRC: parser_library/src/context/common_types.cpp parser_library/src/diagnostic.cpp parser_library/src/ebcdic_encoding.cpp
// SRC: parser_library/src/expressions/conditional_assembly/terms/ca_function.cpp parser_library/src/expressions/conditional_assembly/terms/ca_constant.cpp
#include "ca_env.h"
#include "expressions/conditional_assembly/ca_operator_binary.h"
#include "expressions/conditional_assembly/ca_operator_unary.h"
#include "expressions/conditional_assembly/ca_expr_policy.h"
#include "expressions/conditional_assembly/terms/ca_constant.h"
#include "ebcdic_encoding.h"
using namespace hlasm_plugin::parser_library;
using namespace hlasm_plugin::parser_library::expressions;
using context::SET_t;
using context::SET_t_enum;

namespace {
ca_expr_ptr cst(int32_t v) { return std::make_unique<ca_constant>(v, range()); }

void post(int64_t exact, ca_env& e, SET_t r)
{
    vp_assert(r.type == SET_t_enum::A_TYPE, "result is arithmetic");
    if (exact > INT32_MAX || exact < INT32_MIN)
    {
        vp_assert(e.count() == 1, "one diagnostic on overflow");
        vp_assert(e.code() == (exact > 0 ? "CE013" : "CE014"), "overflow/underflow diagnostic code");
        vp_assert(r.access_a() == 0, "overflow yields zero");
        vp_cover("overflow");
    }
    else
    {
        vp_assert(e.count() == 0, "no diagnostic without overflow");
        vp_assert(r.access_a() == exact, "exact result");
        vp_cover("exact");
    }
}
template<typename OP>
void arith(int64_t (*f)(int64_t, int64_t))
{
    ca_env e;
    int32_t a = vp_i32("lhs"), b = vp_i32("rhs");
    ca_basic_binary_operator<OP> op(cst(a), cst(b), range());
    SET_t r = op.evaluate(e.ctx);
    post(f(a, b), e, std::move(r));
}
} // namespace

VP_ENTRY(arith_add) { arith<ca_add>([](int64_t a, int64_t b) { return a + b; }); }
VP_ENTRY(arith_sub) { arith<ca_sub>([](int64_t a, int64_t b) { return a - b; }); }
VP_ENTRY(arith_mul) { arith<ca_mul>([](int64_t a, int64_t b) { return a * b; }); }
// integer division truncates towards zero; division by zero yields zero without a diagnostic
VP_ENTRY(arith_div) { arith<ca_div>([](int64_t a, int64_t b) { return b ? a / b : (int64_t)0; }); }
VP_ENTRY(arith_minus)
{
    ca_env e;
    int32_t a = vp_i32("operand");
    ca_minus_operator op(cst(a), range());
    post(-(int64_t)a, e, op.evaluate(e.ctx));
}
VP_ENTRY(arith_plus)
{
    ca_env e;
    int32_t a = vp_i32("operand");
    ca_plus_operator op(cst(a), range());
    SET_t r = op.evaluate(e.ctx);
    vp_assert(r.type == SET_t_enum::A_TYPE && r.access_a() == a && e.count() == 0, "unary plus is identity");
}
VP_ENTRY(arith_par)
{
    ca_env e;
    int32_t a = vp_i32("operand");
    ca_par_operator op(cst(a), range());
    op.resolve_expression_tree(SET_t_enum::A_TYPE);
    SET_t r = op.evaluate(e.ctx);
    vp_assert(op.expr_kind == SET_t_enum::A_TYPE, "parentheses keep the kind");
    vp_assert(r.type == SET_t_enum::A_TYPE && r.access_a() == a && e.count() == 0, "parentheses keep the value");
}

// ---------------------------------------------------------------- shifts and logic
namespace {
SET_t func(ca_expr_ops op, SET_t_enum kind, SET_t a, SET_t b, ca_env& e)
{
    ca_function_binary_operator o(mk(std::move(a)), mk(std::move(b)), op, kind, range());
    return o.evaluate(e.ctx);
}
void shift(ca_expr_ops op, int32_t (*f)(int32_t, unsigned))
{
    ca_env e;
    int32_t a = vp_i32("lhs"), b = vp_i32("rhs");
    SET_t r = func(op, SET_t_enum::A_TYPE, a, b, e);
    vp_assert(r.type == SET_t_enum::A_TYPE, "result is arithmetic");
    vp_assert(e.count() == 0, "shift is not diagnosed");
    vp_assert(r.access_a() == f(a, (unsigned)b % 64), "shift result");
}
void logic(ca_expr_ops op, int32_t (*f)(int32_t, int32_t))
{
    ca_env e;
    int32_t a = vp_i32("lhs"), b = vp_i32("rhs");
    SET_t r = func(op, SET_t_enum::A_TYPE, a, b, e);
    vp_assert(r.type == SET_t_enum::A_TYPE, "result is arithmetic");
    vp_assert(e.count() == 0, "no diagnostic");
    vp_assert(r.access_a() == f(a, b), "bitwise result");
}
void blogic(ca_expr_ops op, bool (*f)(bool, bool))
{
    ca_env e;
    bool a = vp_bool("lhs"), b = vp_bool("rhs");
    SET_t r = func(op, SET_t_enum::B_TYPE, a, b, e);
    vp_assert(r.type == SET_t_enum::B_TYPE, "result is boolean");
    vp_assert(e.count() == 0, "no diagnostic");
    vp_assert(r.access_b() == f(a, b), "logical result");
}
} // namespace
VP_ENTRY(shift_sll)
{
    shift(ca_expr_ops::SLL, [](int32_t a, unsigned n) { return n > 31 ? 0 : (int32_t)((uint32_t)a << n); });
}
VP_ENTRY(shift_srl)
{
    shift(ca_expr_ops::SRL, [](int32_t a, unsigned n) { return n > 31 ? 0 : (int32_t)((uint32_t)a >> n); });
}
// arithmetic right shift: floor division by 2^n
VP_ENTRY(shift_sra)
{
    shift(ca_expr_ops::SRA, [](int32_t a, unsigned n) { return (int32_t)((int64_t)a >> n); });
}
// arithmetic left shift: the 31 magnitude bits move, the sign bit stays
VP_ENTRY(shift_sla)
{
    shift(ca_expr_ops::SLA, [](int32_t a, unsigned n) {
        uint32_t m = n > 30 ? 0 : ((uint32_t)a << n) & 0x7fffffffu;
        return (int32_t)(m | (a < 0 ? 0x80000000u : 0u));
    });
}
VP_ENTRY(logic_and) { logic(ca_expr_ops::AND, [](int32_t a, int32_t b) { return a & b; }); }
VP_ENTRY(logic_or) { logic(ca_expr_ops::OR, [](int32_t a, int32_t b) { return a | b; }); }
VP_ENTRY(logic_xor) { logic(ca_expr_ops::XOR, [](int32_t a, int32_t b) { return a ^ b; }); }
VP_ENTRY(logic_not)
{
    ca_env e;
    int32_t a = vp_i32("operand");
    ca_function_unary_operator op(cst(a), ca_expr_ops::NOT, SET_t_enum::A_TYPE, range());
    SET_t r = op.evaluate(e.ctx);
    vp_assert(r.type == SET_t_enum::A_TYPE && r.access_a() == -1 - a && e.count() == 0, "bitwise complement");
}
VP_ENTRY(blogic_and) { blogic(ca_expr_ops::AND, [](bool a, bool b) { return a && b; }); }
VP_ENTRY(blogic_or) { blogic(ca_expr_ops::OR, [](bool a, bool b) { return a || b; }); }
VP_ENTRY(blogic_xor) { blogic(ca_expr_ops::XOR, [](bool a, bool b) { return a != b; }); }
VP_ENTRY(blogic_and_not) { blogic(ca_expr_ops::AND_NOT, [](bool a, bool b) { return a && !b; }); }
VP_ENTRY(blogic_or_not) { blogic(ca_expr_ops::OR_NOT, [](bool a, bool b) { return a || !b; }); }
VP_ENTRY(blogic_xor_not) { blogic(ca_expr_ops::XOR_NOT, [](bool a, bool b) { return a == b; }); }
VP_ENTRY(blogic_not)
{
    ca_env e;
    bool a = vp_bool("operand");
    ca_function_unary_operator op(mk(a), ca_expr_ops::NOT, SET_t_enum::B_TYPE, range());
    SET_t r = op.evaluate(e.ctx);
    vp_assert(r.type == SET_t_enum::B_TYPE && r.access_b() == !a && e.count() == 0, "logical complement");
}

// ---------------------------------------------------------------- relations
namespace {
const ca_expr_ops relops[] = { ca_expr_ops::EQ, ca_expr_ops::NE, ca_expr_ops::LE, ca_expr_ops::LT, ca_expr_ops::GE, ca_expr_ops::GT };
bool relres(int i, int order)
{
    switch (i)
    {
        case 0: return order == 0;
        case 1: return order != 0;
        case 2: return order <= 0;
        case 3: return order < 0;
        case 4: return order >= 0;
        default: return order > 0;
    }
}
} // namespace
VP_ENTRY(rel_arith)
{
    int32_t a = vp_i32("lhs"), b = vp_i32("rhs");
    int order = a < b ? -1 : a > b ? 1 : 0;
    for (int i = 0; i < 6; ++i)
    {
        ca_env e;
        SET_t r = func(relops[i], SET_t_enum::B_TYPE, a, b, e);
        vp_assert(r.type == SET_t_enum::B_TYPE, "result is boolean");
        vp_assert(e.count() == 0, "no diagnostic");
        vp_assert(r.access_b() == relres(i, order), "relation agrees with integer order");
    }
}
// character comparison: shorter is smaller, equal lengths collate in EBCDIC; here for one-character operands
VP_ENTRY(rel_char1)
{
    uint8_t a = vp_in<uint8_t>("lhs", 0, 127), b = vp_in<uint8_t>("rhs", 0, 127);
    int x = ebcdic_encoding::a2e[a], y = ebcdic_encoding::a2e[b];
    int order = x < y ? -1 : x > y ? 1 : 0;
    for (int i = 0; i < 6; ++i)
    {
        ca_env e;
        SET_t r = func(relops[i], SET_t_enum::B_TYPE, std::string(1, (char)a), std::string(1, (char)b), e);
        vp_assert(r.type == SET_t_enum::B_TYPE, "result is boolean");
        vp_assert(r.access_b() == relres(i, order), "relation agrees with EBCDIC order");
    }
}
VP_ENTRY(rel_char_len)
{
    std::string a = vp_string("lhs"), b = vp_string("rhs");
    vp_assume(a.size() < 2147483647 && b.size() < 2147483647 && a.size() != b.size());
    int order = a.size() < b.size() ? -1 : 1;
    for (int i = 0; i < 6; ++i)
    {
        ca_env e;
        SET_t r = func(relops[i], SET_t_enum::B_TYPE, a, b, e);
        vp_assert(r.type == SET_t_enum::B_TYPE, "result is boolean");
        vp_assert(r.access_b() == relres(i, order), "shorter string is smaller");
    }
}
