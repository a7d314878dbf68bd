// Contracts of relocatable address arithmetic and values of symbols (machine expressions).
// SRC: parser_library/src/context/ordinary_assembly/address.cpp parser_library/src/context/ordinary_assembly/symbol.cpp
// SRC: parser_library/src/context/ordinary_assembly/symbol_attributes.cpp parser_library/src/context/ordinary_assembly/location_counter.cpp
// SRC: parser_library/src/expressions/mach_expr_term.cpp parser_library/src/expressions/mach_expression.cpp parser_library/src/diagnostic.cpp parser_library/src/context/ordinary_assembly/dependency_collector.cpp
// SRC: parser_library/src/context/ordinary_assembly/location_counter_data.cpp parser_library/src/context/ordinary_assembly/section.cpp
// CASES addr_.*: every address with at most two distinct sections, any counts below 10^6 and offsets below 2^29 (all obligations discharged for this structure)
// CASES space_.*|val_space: every address with at most one unknown and one resolved space (containing an unknown one or not), counts 1 or -2, any lengths and offsets below 10^5 (all obligations discharged for this structure)
// NOTE: offsets of addresses are below 2^29 in magnitude (no overflow of an address offset)
#include "vp.h"
#include "context/ordinary_assembly/address.h"
#include "context/ordinary_assembly/location_counter.h"
#include "context/ordinary_assembly/section.h"
#include "context/ordinary_assembly/symbol.h"
#include "diagnosable_impl.h"
#include "expressions/mach_expr_term.h"
#include "expressions/mach_operator.h"
using namespace hlasm_plugin::parser_library;
using namespace hlasm_plugin::parser_library::context;
namespace {
alignas(64) char sect[3][1024];
const section* sec(int i) { return (const section*)sect[i]; }
int32_t cnt(const char* n)
{
    int32_t c = vp_in<int32_t>(n, -1000000, 1000000);
    vp_assume(c != 0);
    return c;
}
int32_t off(const char* n) { return vp_in<int32_t>(n, -(1 << 29), 1 << 29); }
// address with an arbitrary subset of the bases b0, b1
address mk(const char* p1, const char* c1, const char* p2, const char* c2, const char* o, int b0, int b1)
{
    std::vector<address::base_entry> b;
    if (vp_bool(p1))
        b.emplace_back(address::base { sec(b0) }, cnt(c1));
    if (vp_bool(p2))
        b.emplace_back(address::base { sec(b1) }, cnt(c2));
    return address(std::move(b), off(o), {});
}
int64_t count(const address& a, int i)
{
    int64_t r = 0;
    for (const auto& e : a.bases())
        if (e.first.owner == sec(i))
            r += e.second;
    return r;
}
bool nonzero(const address& a)
{
    for (const auto& e : a.bases())
        if (e.second == 0)
            return false;
    return a.bases().size() == (size_t)((count(a, 0) != 0) + (count(a, 1) != 0) + (count(a, 2) != 0));
}
} // namespace
// every base is counted exactly: lhs uses sections 0,1; rhs sections 1,2 (shared), also in the other order
VP_ENTRY(addr_add)
{
    address x = mk("xa", "xac", "xb", "xbc", "xo", 0, 1), y = mk("ya", "yac", "yb", "ybc", "yo", 1, 2);
    address r = x + y;
    for (int i = 0; i < 3; ++i)
        vp_assert(count(r, i) == count(x, i) + count(y, i), "base counts add up");
    vp_assert(nonzero(r), "no base with zero count");
    vp_assert(r.offset() == x.offset() + y.offset() && r.spaces().empty(), "offsets add up");
}
VP_ENTRY(addr_sub)
{
    address x = mk("xa", "xac", "xb", "xbc", "xo", 0, 1), y = mk("ya", "yac", "yb", "ybc", "yo", 1, 2);
    address r = x - y;
    for (int i = 0; i < 3; ++i)
        vp_assert(count(r, i) == count(x, i) - count(y, i), "base counts subtract");
    vp_assert(nonzero(r), "no base with zero count");
    vp_assert(r.offset() == x.offset() - y.offset() && r.spaces().empty(), "offsets subtract");
}
VP_ENTRY(addr_neg)
{
    address x = mk("xa", "xac", "xb", "xbc", "xo", 0, 1);
    address r = -x;
    for (int i = 0; i < 3; ++i)
        vp_assert(count(r, i) == -count(x, i), "base counts are negated");
    vp_assert(nonzero(r) && r.offset() == -x.offset(), "offset is negated");
}
VP_ENTRY(addr_int)
{
    address x = mk("xa", "xac", "xb", "xbc", "xo", 0, 1);
    int32_t k = off("k");
    address r = x + k, s = x - k;
    for (int i = 0; i < 2; ++i)
        vp_assert(count(r, i) == count(x, i) && count(s, i) == count(x, i), "bases are kept");
    vp_assert(r.offset() == x.offset() + k && s.offset() == x.offset() - k, "offset moves");
}
VP_ENTRY(addr_kind)
{
    address x = mk("xa", "xac", "xb", "xbc", "xo", 0, 1);
    vp_assert(x.is_complex() == (count(x, 0) != 0 && count(x, 1) != 0), "complex: more than one base");
    vp_assert(x.is_simple() == ((count(x, 0) == 1 && count(x, 1) == 0) || (count(x, 0) == 0 && count(x, 1) == 1)), "simple: one base, once");
}
// ---------------------------------------------------------------- spaces of unknown length
namespace {
alignas(64) char loc_[1024];
location_counter& lc() { return *(location_counter*)loc_; }
space_ptr usp(space_kind k = space_kind::ORDINARY) { return std::make_shared<space>(lc(), no_align, k); }
// a resolved space: length len, followed by one nested space
space_ptr rsp(int32_t len, space_ptr nested)
{
    space_ptr s = std::make_shared<space>(lc(), no_align, space_kind::LOCTR_UNKNOWN);
    s->resolved_length = len;
    if (nested)
        s->resolved_ptrs.emplace_back(std::move(nested), 1);
    s->resolved_ = true;
    return s;
}
int32_t soff(const char* n) { return vp_in<int32_t>(n, -100000, 100000); }
int64_t scount(const std::vector<address::space_entry>& v, const space_ptr& s)
{
    int64_t r = 0;
    for (const auto& e : v)
    {
        if (e.first == s)
            r += e.second;
        else if (e.first->resolved())
            r += e.second * scount(e.first->resolved_ptrs, s);
    }
    return r;
}
int64_t soffset(const std::vector<address::space_entry>& v)
{
    int64_t r = 0;
    for (const auto& e : v)
        if (e.first->resolved())
            r += e.second * (e.first->resolved_length + soffset(e.first->resolved_ptrs));
    return r;
}
int64_t value(const address& a) { return a.offset_ + soffset(a.spaces()); }
struct spaces
{
    space_ptr u, v, r;
    spaces()
        : u(usp())
        , v(usp())
        , r(rsp(soff("rlen"), vp_bool("rnest") ? u : nullptr))
    {}
    // counts of spaces: by cases, so that the arithmetic stays linear
    static void put(std::vector<address::space_entry>& v, const space_ptr& s, const char* n)
    {
        if (vp_bool(n))
            v.emplace_back(s, 1);
        else if (vp_bool(n))
            v.emplace_back(s, -2);
    }
    address mk(const char* a, const char* c, const char* o)
    {
        std::vector<address::space_entry> s;
        put(s, u, a);
        put(s, r, c);
        return address(std::vector<address::base_entry> {}, soff(o), std::move(s));
    }
};
} // namespace
VP_ENTRY(space_offset)
{
    spaces s;
    address x = s.mk("xu", "xr", "xo");
    vp_assert(x.offset() == value(x), "offset counts every resolved space as often as it occurs");
    vp_assert(x.has_unresolved_space() == !(x.spaces().empty() || (x.spaces().size() == 1 && x.spaces()[0].first == s.r && s.r->resolved_ptrs.empty())), "unresolved spaces");
}
VP_ENTRY(space_add)
{
    spaces s;
    address x = s.mk("xu", "xr", "xo"), y = s.mk("yu", "yr", "yo");
    address r = x + y;
    vp_assert(scount(r.spaces(), s.u) == scount(x.spaces(), s.u) + scount(y.spaces(), s.u), "unknown spaces add up");
    vp_assert(value(r) == value(x) + value(y), "offsets add up");
}
VP_ENTRY(space_sub)
{
    spaces s;
    address x = s.mk("xu", "xr", "xo"), y = s.mk("yu", "yr", "yo");
    address r = x - y;
    vp_assert(scount(r.spaces(), s.u) == scount(x.spaces(), s.u) - scount(y.spaces(), s.u), "unknown spaces subtract");
    vp_assert(value(r) == value(x) - value(y), "offsets subtract");
}
VP_ENTRY(space_int)
{
    spaces s;
    address x = s.mk("xu", "xr", "xo");
    int32_t k = soff("k");
    address r = x + k, t = x - k, n = -x;
    vp_assert(scount(r.spaces(), s.u) == scount(x.spaces(), s.u) && value(r) == value(x) + k, "adding a number");
    vp_assert(scount(t.spaces(), s.u) == scount(x.spaces(), s.u) && value(t) == value(x) - k, "subtracting a number");
    vp_assert(scount(n.spaces(), s.u) == -scount(x.spaces(), s.u) && value(n) == -value(x), "negation");
}

// ---------------------------------------------------------------- values of symbols
namespace {
bool is_abs(const symbol_value& v) { return v.value_kind() == symbol_value_kind::ABS; }
bool is_rel(const symbol_value& v) { return v.value_kind() == symbol_value_kind::RELOC; }
bool is_undef(const symbol_value& v) { return v.value_kind() == symbol_value_kind::UNDEF; }
int32_t wrap(int64_t v) { return (int32_t)(uint32_t)(uint64_t)v; }
address one(int b, int32_t o) { return address(address::base { sec(b) }, o, {}); }
} // namespace
VP_ENTRY(val_abs)
{
    int32_t a = vp_i32("a"), b = vp_i32("b");
    symbol_value x(a), y(b);
    symbol_value s = x + y, d = x - y, n = -x;
    vp_assert(is_abs(s) && s.get_abs() == wrap((int64_t)a + b), "sum");
    vp_assert(is_abs(d) && d.get_abs() == wrap((int64_t)a - b), "difference");
    vp_assert(is_abs(n) && n.get_abs() == wrap(-(int64_t)a), "negation");
}
VP_ENTRY(val_mul)
{
    int32_t a = vp_i32("a"), b = vp_i32("b");
    symbol_value s = symbol_value(a) * symbol_value(b);
    vp_assert(is_abs(s) && s.get_abs() == wrap((int64_t)a * b), "product");
}
VP_ENTRY(val_div)
{
    int32_t a = vp_i32("a"), b = vp_i32("b");
    symbol_value s = symbol_value(a) / symbol_value(b);
    vp_assert(is_abs(s) && s.get_abs() == (b == 0 ? 0 : wrap((int64_t)a / b)), "quotient, zero for a zero divisor");
}
VP_ENTRY(val_undef)
{
    symbol_value u, a(vp_i32("a")), r(one(0, off("o")));
    vp_assert(is_undef(u + a) && is_undef(a + u) && is_undef(u + r) && is_undef(r + u) && is_undef(u + u), "undefined sum");
    vp_assert(is_undef(u - a) && is_undef(a - u) && is_undef(u - r) && is_undef(r - u) && is_undef(u - u), "undefined difference");
    vp_assert(is_undef(u * a) && is_undef(a * u) && is_undef(u * r) && is_undef(r * u) && is_undef(u / a) && is_undef(a / u), "undefined product and quotient");
    vp_assert(is_undef(r * a) && is_undef(a * r) && is_undef(r / a) && is_undef(a / r) && is_undef(r * r) && is_undef(r / r), "relocatable terms are not multiplied");
    vp_assert(is_undef(-u), "undefined negation");
}
VP_ENTRY(val_reloc_abs)
{
    int32_t o = off("o"), k = off("k");
    symbol_value r(one(0, o)), a(k);
    symbol_value s = r + a, t = a + r, d = r - a, e = a - r, n = -r;
    vp_assert(is_rel(s) && s.get_reloc().offset() == o + k && count(s.get_reloc(), 0) == 1 && s.get_reloc().bases().size() == 1, "relocatable + absolute");
    vp_assert(is_rel(t) && t.get_reloc().offset() == o + k && count(t.get_reloc(), 0) == 1 && t.get_reloc().bases().size() == 1, "absolute + relocatable");
    vp_assert(is_rel(d) && d.get_reloc().offset() == o - k && count(d.get_reloc(), 0) == 1 && d.get_reloc().bases().size() == 1, "relocatable - absolute");
    vp_assert(is_rel(e) && e.get_reloc().offset() == k - o && count(e.get_reloc(), 0) == -1 && e.get_reloc().bases().size() == 1, "absolute - relocatable");
    vp_assert(is_rel(n) && n.get_reloc().offset() == -o && count(n.get_reloc(), 0) == -1 && n.get_reloc().bases().size() == 1, "negation");
}
VP_ENTRY(val_reloc_reloc)
{
    int32_t o = off("o"), p = off("p");
    bool same = vp_bool("same");
    symbol_value r(one(0, o)), q(one(same ? 0 : 1, p));
    symbol_value d = r - q, s = r + q, z = r + -q;
    if (same)
    {
        vp_assert(is_abs(d) && d.get_abs() == o - p, "distance within a section is absolute");
        vp_assert(is_abs(z) && z.get_abs() == o - p, "adding the negated term is subtracting");
        vp_assert(is_rel(s) && count(s.get_reloc(), 0) == 2 && s.get_reloc().offset() == o + p, "sum counts the section twice");
    }
    else
    {
        vp_assert(is_rel(d) && count(d.get_reloc(), 0) == 1 && count(d.get_reloc(), 1) == -1 && d.get_reloc().offset() == o - p, "distance between sections stays relocatable");
        vp_assert(is_rel(s) && count(s.get_reloc(), 0) == 1 && count(s.get_reloc(), 1) == 1 && s.get_reloc().offset() == o + p, "sum of two sections");
    }
}
// the difference of two addresses behind the same unknown space is absolute, behind different ones it stays pending
VP_ENTRY(val_space)
{
    space_ptr u = usp(), v = vp_bool("other") ? usp() : u;
    int32_t o = soff("o"), p = soff("p");
    symbol_value r(address(address::base { sec(0) }, o, { u })), q(address(address::base { sec(0) }, p, { v }));
    symbol_value d = r - q;
    vp_assert(is_abs(d) == (u == v), "absolute exactly if the unknown spaces cancel");
    if (is_abs(d))
        vp_assert(d.get_abs() == o - p, "distance");
    else
    {
        vp_assert(d.get_reloc().bases().empty() && d.get_reloc().has_unresolved_space(), "pending distance");
        int32_t lu = soff("lu"), lv = soff("lv");
        u->resolved_length = lu;
        u->resolved_ = true;
        v->resolved_length = lv;
        v->resolved_ = true;
        vp_assert(!d.get_reloc().has_unresolved_space() && d.get_reloc().offset() == (o + lu) - (p + lv), "once the lengths are known the distance is exact");
    }
}
VP_ENTRY(val_assign)
{
    symbol_value u;
    int32_t a = vp_i32("a");
    u = symbol_value(a);
    vp_assert(is_abs(u) && u.get_abs() == a, "a value is assigned to an undefined one");
    symbol s(nullptr, symbol_value(), symbol_attributes(symbol_origin::EQU), {});
    vp_assert(s.kind() == symbol_value_kind::UNDEF, "undefined symbol");
    s.set_value(symbol_value(a));
    vp_assert(s.kind() == symbol_value_kind::ABS && s.value().get_abs() == a, "defined symbol");
    bool thrown = false;
    try
    {
        s.set_value(symbol_value(vp_i32("b")));
    }
    catch (const std::runtime_error&)
    {
        thrown = true;
    }
    vp_assert(thrown && s.value().get_abs() == a, "a defined symbol never changes its value");
}
// ---------------------------------------------------------------- operators of machine expressions
namespace {
using namespace hlasm_plugin::parser_library::expressions;
struct solver : dependency_solver
{
    const symbol* s = nullptr;
    const symbol* get_symbol(id_index) const override { return s; }
};
// a term of any kind
struct term : mach_expression
{
    symbol_value v;
    term(symbol_value v)
        : mach_expression(range())
        , v(std::move(v))
    {}
    dependency_collector get_dependencies(dependency_solver&) const override { return dependency_collector(); }
    value_t evaluate(mach_evaluate_info) const override { return v; }
    void fill_location_counter(address) override {}
    const mach_expression* leftmost_term() const override { return this; }
    void apply(mach_expr_visitor&) const override {}
    void collect_diags() const override {}
};
symbol_value any(const char* k, const char* v)
{
    int32_t x = off(v);
    if (vp_bool(k))
        return symbol_value(x);
    if (vp_bool(k))
        return symbol_value(one(0, x));
    return symbol_value();
}
bool same(const symbol_value& a, const symbol_value& b)
{
    if (a.value_kind() != b.value_kind())
        return false;
    if (is_abs(a))
        return a.get_abs() == b.get_abs();
    if (is_rel(a))
        return a.get_reloc().offset() == b.get_reloc().offset() && a.get_reloc().bases().size() == b.get_reloc().bases().size() && count(a.get_reloc(), 0) == count(b.get_reloc(), 0);
    return true;
}
template<typename T>
std::unique_ptr<mach_expression> bin(const symbol_value& a, const symbol_value& b)
{
    return std::make_unique<mach_expr_binary<T>>(std::make_unique<term>(a), std::make_unique<term>(b), range());
}
template<typename T>
std::unique_ptr<mach_expression> un(const symbol_value& a)
{
    return std::make_unique<mach_expr_unary<T>>(std::make_unique<term>(a), range());
}
} // namespace
VP_ENTRY(expr_addsub)
{
    solver s;
    symbol_value a = any("ak", "a"), b = any("bk", "b");
    auto p = bin<add>(a, b), m = bin<sub>(a, b);
    vp_assert(same(p->evaluate(s), a + b) && same(m->evaluate(s), a - b), "operator");
    vp_assert(p->diags().empty() && m->diags().empty(), "no diagnostic");
}
VP_ENTRY(expr_muldiv)
{
    solver s;
    symbol_value a = any("ak", "a"), b = any("bk", "b");
    bool bad = !is_undef(a) && !is_undef(b) && (is_rel(a) || is_rel(b));
    auto p = bin<mul>(a, b), q = bin<expressions::div>(a, b);
    vp_assert(same(p->evaluate(s), a * b) && same(q->evaluate(s), a / b), "operator");
    vp_assert(p->diags().size() == (bad ? 1 : 0) && q->diags().size() == (bad ? 1 : 0), "relocatable factors are diagnosed");
}
VP_ENTRY(expr_unary)
{
    solver s;
    symbol_value a = any("ak", "a");
    auto p = un<add>(a), m = un<sub>(a), q = un<par>(a);
    vp_assert(same(p->evaluate(s), a) && same(q->evaluate(s), a) && same(m->evaluate(s), -a), "operator");
}
VP_ENTRY(expr_symbol)
{
    solver s;
    symbol_value a = any("ak", "a");
    symbol y(nullptr, a, symbol_attributes(symbol_origin::EQU), {});
    mach_expr_symbol e(nullptr, range());
    vp_assert(is_undef(e.evaluate(s)), "a symbol that is not defined has no value");
    s.s = &y;
    vp_assert(same(e.evaluate(s), a), "value of the symbol");
}
VP_ENTRY(expr_location)
{
    solver s;
    mach_expr_location_counter e { range() };
    int32_t o = off("o");
    e.fill_location_counter(one(0, o));
    symbol_value v = e.evaluate(s);
    vp_assert(is_rel(v) && v.get_reloc().offset() == o && count(v.get_reloc(), 0) == 1, "location counter");
}
