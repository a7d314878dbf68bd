// Contracts of symbol definition: forward references, dependency cycles, storage of unknown length.
// SRC: parser_library/src/context/ordinary_assembly/address.cpp parser_library/src/context/ordinary_assembly/location_counter.cpp
// SRC: parser_library/src/context/ordinary_assembly/location_counter_data.cpp
// SRC: parser_library/src/context/ordinary_assembly/section.cpp parser_library/src/context/ordinary_assembly/ordinary_assembly_context.cpp parser_library/src/context/ordinary_assembly/symbol.cpp
// SRC: parser_library/src/context/ordinary_assembly/symbol_dependency_tables.cpp parser_library/src/context/ordinary_assembly/symbol_attributes.cpp parser_library/src/context/id_storage.cpp
// SRC: parser_library/src/ebcdic_encoding.cpp parser_library/src/context/ordinary_assembly/dependant.cpp parser_library/src/context/ordinary_assembly/postponed_statement.cpp parser_library/src/context/ordinary_assembly/address_resolver.cpp parser_library/src/context/ordinary_assembly/dependency_collector.cpp
// SRC: parser_library/src/expressions/mach_expr_term.cpp parser_library/src/expressions/mach_expression.cpp parser_library/src/diagnostic.cpp
// CASES dep_.*: up to five symbols and two storage areas, every order of their definitions, any constants (all obligations discharged for this structure)
#include "vp.h"
#include "context/ordinary_assembly/location_counter.h"
#include "context/ordinary_assembly/ordinary_assembly_context.h"
#include "context/ordinary_assembly/section.h"
#include "expressions/mach_expr_term.h"
#include "expressions/mach_operator.h"
using namespace hlasm_plugin::parser_library;
using namespace hlasm_plugin::parser_library::context;
using namespace hlasm_plugin::parser_library::expressions;
namespace {
const std::string nx = "X", ny = "Y", nz = "Z", ns = "S", na = "A", nb = "B", nv = "V", nw = "W";
struct stmt final : postponed_statement
{
    processing_stack_t st;
    const processing_stack_t& location_stack() const override { return st; }
};
struct resolver final : loctr_dependency_resolver
{
    void resolve_unknown_loctr_dependency(space_ptr, const address&, range) override {}
};
struct asmctx
{
    id_storage st;
    resolver r;
    ordinary_assembly_context c;
    asmctx()
        : c(st)
    {}
    // EQU as the assembler does it; false: cyclic definition
    bool equ(id_index name, const mach_expression& e)
    {
        auto deps = e.get_dependencies(c);
        symbol_attributes at(symbol_origin::EQU, symbol_attributes::undef_type, 1);
        if (!deps.contains_dependencies())
            return c.create_symbol(name, e.resolve(c), at, {});
        if (deps.is_address())
            return c.create_symbol(name, *deps.unresolved_address, at, {});
        return c.create_symbol(name, symbol_value(), at, {}) && c.symbol_dependencies.add_dependency(name, &e, std::make_unique<stmt>());
    }
    // DS (e)C: storage of e bytes
    void ds(const mach_expression& e, alignment al)
    {
        c.align(al);
        if (e.get_dependencies(c).contains_dependencies())
            c.symbol_dependencies.add_dependency(c.register_ordinary_space(no_align), &e, std::make_unique<stmt>());
        else
            c.reserve_storage_area(e.resolve(c).get_abs(), no_align);
    }
    bool label(id_index name) { return c.create_symbol(name, c.align(no_align), symbol_attributes(symbol_origin::DAT, symbol_attributes::undef_type, 1), {}); }
    bool is(id_index n, int32_t v)
    {
        const symbol* s = c.get_symbol(n);
        return s && s->kind() == symbol_value_kind::ABS && s->value().get_abs() == v;
    }
    bool at(id_index n, int32_t v)
    {
        const symbol* s = c.get_symbol(n);
        return s && s->kind() == symbol_value_kind::RELOC && s->value().get_reloc().offset() == v && !s->value().get_reloc().has_unresolved_space();
    }
    bool undef(id_index n)
    {
        const symbol* s = c.get_symbol(n);
        return !s || s->kind() == symbol_value_kind::UNDEF;
    }
};
mach_expr_ptr cst(int v) { return std::make_unique<mach_expr_constant>(v, range()); }
mach_expr_ptr sym(id_index n) { return std::make_unique<mach_expr_symbol>(n, range()); }
template<typename T>
mach_expr_ptr bin(mach_expr_ptr a, mach_expr_ptr b)
{
    return std::make_unique<mach_expr_binary<T>>(std::move(a), std::move(b), range());
}
int32_t k(const char* n) { return vp_in<int32_t>(n, -(1 << 20), 1 << 20); }
int32_t amount(const char* n) { return vp_in<int32_t>(n, 0, 1 << 20); }
} // namespace
// X EQU Y+a; Y EQU b-Z; Z EQU c in every order
VP_ENTRY(dep_order)
{
    asmctx x;
    int32_t a = k("a"), b = k("b"), c = k("c");
    auto ex = bin<add>(sym(&ny), cst(a)), ey = bin<sub>(cst(b), sym(&nz)), ez = cst(c);
    bool dx = false, dy = false, dz = false;
    for (int i = 0; i < 3; ++i)
    {
        if (!dx && vp_bool("x"))
        {
            vp_assert(x.equ(&nx, *ex), "no cycle");
            dx = true;
        }
        else if (!dy && vp_bool("y"))
        {
            vp_assert(x.equ(&ny, *ey), "no cycle");
            dy = true;
        }
        else if (!dz)
        {
            vp_assert(x.equ(&nz, *ez), "no cycle");
            dz = true;
        }
        else if (!dy)
        {
            vp_assert(x.equ(&ny, *ey), "no cycle");
            dy = true;
        }
        else
        {
            vp_assert(x.equ(&nx, *ex), "no cycle");
            dx = true;
        }
        vp_assert(dz ? x.is(&nz, c) : x.undef(&nz), "Z is defined as soon as possible and not before");
        vp_assert(dz && dy ? x.is(&ny, b - c) : x.undef(&ny), "Y is defined as soon as possible and not before");
        vp_assert(dz && dy && dx ? x.is(&nx, b - c + a) : x.undef(&nx), "X is defined as soon as possible and not before");
    }
}
VP_ENTRY(dep_cycle)
{
    asmctx x;
    int32_t a = k("a"), b = k("b"), c = k("c");
    bool two = vp_bool("two");
    auto ex = bin<add>(sym(&ny), cst(a)), ey = bin<sub>(cst(b), sym(two ? &nx : &nz)), ez = bin<add>(cst(c), sym(&nx));
    vp_assert(x.equ(&nx, *ex), "no cycle yet");
    bool ok = x.equ(&ny, *ey);
    if (two)
    {
        vp_assert(!ok, "a cycle over two symbols is found");
        vp_assert(x.is(&ny, 0) && x.is(&nx, a), "the cycle is broken with zero");
        return;
    }
    vp_assert(ok, "no cycle yet");
    vp_assert(!x.equ(&nz, *ez), "a cycle over three symbols is found");
    vp_assert(x.is(&nz, 0) && x.is(&ny, b) && x.is(&nx, a + b), "the cycle is broken with zero");
}
VP_ENTRY(dep_self)
{
    asmctx x;
    int32_t a = k("a");
    auto ex = bin<add>(sym(&nx), cst(a));
    vp_assert(!x.equ(&nx, *ex) && x.is(&nx, 0), "a symbol that refers to itself is diagnosed");
}
// label behind storage of unknown length, distance of labels around it
VP_ENTRY(dep_storage)
{
    asmctx x;
    int32_t a = amount("a"), n = amount("n"), b = amount("b");
    x.c.set_section(&ns, section_kind::COMMON, {});
    auto len = sym(&nz), ez = cst(n), dist = bin<sub>(sym(&nb), sym(&na)), cnt = cst(a);
    x.ds(*cnt, no_align);
    x.label(&na);
    x.ds(*len, no_align);
    x.label(&nb);
    bool early = vp_bool("early");
    if (early)
        vp_assert(x.equ(&nx, *dist), "no cycle");
    vp_assert(x.equ(&nz, *ez), "no cycle");
    x.c.symbol_dependencies.add_defined(&x.r);
    if (!early)
        vp_assert(x.equ(&nx, *dist), "no cycle");
    vp_assert(x.at(&na, a) && x.at(&nb, a + n), "labels around the storage");
    vp_assert(x.is(&nx, n), "their distance is the length");
}
VP_ENTRY(dep_storage_align)
{
    asmctx x;
    int32_t a = vp_in<int32_t>("a", 0, 100000), n = vp_in<int32_t>("n", 0, 100000);
    x.c.set_section(&ns, section_kind::COMMON, {});
    auto len = sym(&nz), ez = cst(n), cnt = cst(a);
    x.ds(*cnt, no_align);
    x.ds(*len, no_align);
    x.c.align(fullword);
    x.label(&nb);
    vp_assert(x.equ(&nz, *ez), "no cycle");
    x.c.symbol_dependencies.add_defined(&x.r);
    vp_assert(x.at(&nb, (a + n + 3) / 4 * 4), "storage behind an unknown length is aligned once the length is known");
}
VP_ENTRY(dep_org_max)
{
    asmctx x;
    int32_t a = amount("a"), n = amount("n"), b = amount("b");
    x.c.set_section(&ns, section_kind::COMMON, {});
    auto len = sym(&nz), ez = cst(n), ca = cst(a), cb = cst(b);
    x.label(&na);
    x.ds(*ca, no_align);
    x.c.set_location_counter_value(x.c.get_symbol(&na)->value().get_reloc(), 0, 0, nullptr, nullptr);
    x.ds(*len, no_align);
    x.c.set_available_location_counter_value(0, 0);
    x.label(&nb);
    vp_assert(x.equ(&nz, *ez), "no cycle");
    x.c.symbol_dependencies.add_defined(&x.r);
    vp_assert(x.at(&nb, a > n ? a : n), "ORG without operand continues behind the highest location also when a length was not known");
}
VP_ENTRY(dep_duplicate)
{
    asmctx x;
    int32_t a = k("a"), b = k("b");
    auto e1 = cst(a), e2 = cst(b);
    x.equ(&nx, *e1);
    bool thrown = false;
    try
    {
        x.equ(&nx, *e2);
    }
    catch (const std::runtime_error&)
    {
        thrown = true;
    }
    vp_assert(thrown && x.is(&nx, a) && x.c.symbol_defined(&nx) && !x.c.symbol_defined(&ny), "a symbol is defined once");
}
// a cycle that leaves a symbol with several dependencies: X EQU p+q+r; V EQU W+b; W EQU c+X with V at any of the three places
VP_ENTRY(dep_cycle_wide)
{
    asmctx x;
    int32_t a = k("a"), b = k("b"), c = k("c"), y = k("y"), z = k("z");
    int place = vp_bool("first") ? 0 : vp_bool("second") ? 1 : 2;
    id_index o[3] = { &ny, &nz, &nv };
    if (place == 0)
        std::swap(o[0], o[2]);
    else if (place == 1)
        std::swap(o[1], o[2]);
    auto ex = bin<add>(bin<add>(bin<add>(sym(o[0]), sym(o[1])), sym(o[2])), cst(a)), ev = bin<add>(sym(&nw), cst(b)), ew = bin<add>(cst(c), sym(&nx)), ey = cst(y), ez = cst(z);
    vp_assert(x.equ(&nx, *ex) && x.equ(&nv, *ev), "no cycle yet");
    vp_assert(!x.equ(&nw, *ew), "a cycle through a symbol with several dependencies is found");
    vp_assert(x.is(&nw, 0) && x.is(&nv, b) && x.undef(&nx), "the cycle is broken with zero");
    vp_assert(x.equ(&ny, *ey) && x.equ(&nz, *ez), "no cycle");
    vp_assert(x.is(&nx, y + z + b + a), "what is left resolves");
}
// symbols resolve at once even when storage of unknown length waits for the same symbol
VP_ENTRY(dep_mixed)
{
    asmctx x;
    int32_t a = k("a"), b = k("b"), n = amount("n");
    x.c.set_section(&ns, section_kind::COMMON, {});
    auto ex = bin<add>(sym(&nz), cst(a)), ey = bin<sub>(cst(b), sym(&nx)), len = sym(&nz), ez = cst(n), back = bin<add>(sym(&nv), cst(b));
    bool before = vp_bool("before"), between = vp_bool("between");
    if (before)
        x.ds(*len, no_align);
    vp_assert(x.equ(&nx, *ex), "no cycle");
    if (!before && between)
        x.ds(*len, no_align);
    vp_assert(x.equ(&ny, *ey), "no cycle");
    if (!before && !between)
        x.ds(*len, no_align);
    x.label(&nb);
    vp_assert(x.equ(&nz, *ez), "no cycle");
    vp_assert(x.is(&nx, n + a) && x.is(&ny, b - n - a), "symbols are defined as soon as possible");
    x.c.symbol_dependencies.add_defined(&x.r);
    vp_assert(x.at(&nb, n), "and so is the storage");
}
// X EQU L'Y+a, Y with a length that depends on Z; Z and X in any order
VP_ENTRY(dep_attribute)
{
    asmctx x;
    int32_t a = k("a"), n = vp_in<int32_t>("n", 1, 65535), v = k("v");
    mach_expr_ptr ex = bin<add>(std::make_unique<mach_expr_data_attr>(&ny, data_attr_kind::L, range(), range()), cst(a));
    auto len = sym(&nz), ez = cst(n);
    int when = vp_bool("first") ? 0 : vp_bool("second") ? 1 : 2;
    if (when == 0)
        vp_assert(x.equ(&nx, *ex), "no cycle");
    x.c.create_symbol(&ny, v, symbol_attributes(symbol_origin::DAT, symbol_attributes::undef_type), {});
    vp_assert(x.c.symbol_dependencies.add_dependency(&ny, data_attr_kind::L, &*len, std::make_unique<stmt>()), "no cycle");
    if (when == 1)
        vp_assert(x.equ(&nx, *ex), "no cycle");
    vp_assert(x.is(&ny, v) && !x.c.get_symbol(&ny)->attributes().is_defined(data_attr_kind::L), "the value is known, the length is not");
    vp_assert(x.undef(&nx), "X waits for the length");
    vp_assert(x.equ(&nz, *ez), "no cycle");
    if (when == 2)
        vp_assert(x.equ(&nx, *ex), "no cycle");
    vp_assert(x.c.get_symbol(&ny)->attributes().length() == (uint32_t)n && x.is(&nx, n + a), "the length attribute");
}
// Y has a length that depends on X, X EQU L'Y+a
VP_ENTRY(dep_attribute_cycle)
{
    asmctx x;
    int32_t a = k("a"), v = k("v");
    mach_expr_ptr ex = bin<add>(std::make_unique<mach_expr_data_attr>(&ny, data_attr_kind::L, range(), range()), cst(a));
    auto len = sym(&nx);
    bool first = vp_bool("first");
    if (first)
        vp_assert(x.equ(&nx, *ex), "no cycle yet");
    x.c.create_symbol(&ny, v, symbol_attributes(symbol_origin::DAT, symbol_attributes::undef_type), {});
    bool ok = x.c.symbol_dependencies.add_dependency(&ny, data_attr_kind::L, &*len, std::make_unique<stmt>());
    vp_assert(ok != first, "a cycle over a length attribute is found");
    if (!first)
    {
        vp_assert(!x.equ(&nx, *ex) && x.is(&nx, 0), "a cycle over a length attribute is found");
        return;
    }
    vp_assert(x.c.get_symbol(&ny)->attributes().length() == 1 && x.is(&nx, 1 + a), "the cycle is broken with the length one");
}
// storage whose length depends on its own end: A DS (B-A+a)C; B DS 0C, directly, over a second storage or over a symbol
VP_ENTRY(dep_storage_cycle)
{
    asmctx x;
    int32_t a = k("a"), n = amount("n");
    x.c.set_section(&ns, section_kind::COMMON, {});
    auto cnt = cst(n), len = bin<add>(bin<sub>(sym(&nb), sym(&na)), cst(a)), len2 = sym(&ny), ez = cst(n);
    x.ds(*cnt, no_align);
    x.label(&na);
    int form = vp_bool("direct") ? 0 : vp_bool("second") ? 1 : 2;
    bool ok = true;
    if (form == 0)
    {
        x.ds(*len, no_align);
        vp_assert(!x.label(&nb), "a cycle of storage is found");
    }
    else if (form == 1)
    {
        // A DS (B-A+a)C, DS (B-A+a)C, B: either length depends on both
        x.ds(*len, no_align);
        x.ds(*len, no_align);
        vp_assert(!x.label(&nb), "a cycle of two storage areas is found");
    }
    else
    {
        x.ds(*len2, no_align);
        vp_assert(x.label(&nb), "no cycle yet");
        vp_assert(!x.equ(&ny, *len), "a cycle over a symbol is found");
        vp_assert(x.is(&ny, 0), "and broken with zero");
    }
    x.label(&nz);
    x.c.symbol_dependencies.add_defined(&x.r);
    const symbol* b = x.c.get_symbol(&nb);
    vp_assert(x.at(&na, n) && b->kind() == symbol_value_kind::RELOC && !b->value().get_reloc().has_unresolved_space(), "and broken");
    vp_assert(x.at(&nb, n + (form == 2 ? 0 : form + 1)) && x.at(&nz, n + (form == 2 ? 0 : form + 1)), "a length in a cycle counts one");
}
// two storage areas, the length of one depends on the distance around the other one
VP_ENTRY(dep_storage_chain)
{
    asmctx x;
    int32_t n = amount("n"), a = amount("a");
    x.c.set_section(&ns, section_kind::COMMON, {});
    auto l1 = sym(&nz), l2 = bin<sub>(sym(&nb), sym(&na)), ez = cst(n), ca = cst(a);
    bool swapped = vp_bool("swapped");
    if (swapped) // the dependent one comes first
        x.ds(*l2, no_align);
    vp_assert(x.label(&na), "no cycle");
    x.ds(*l1, no_align);
    x.ds(*ca, no_align);
    vp_assert(x.label(&nb), "no cycle");
    if (!swapped)
        x.ds(*l2, no_align);
    vp_assert(x.label(&nv), "no cycle");
    vp_assert(x.equ(&nz, *ez), "no cycle");
    x.c.symbol_dependencies.add_defined(&x.r);
    int32_t d = n + a, first = swapped ? d : 0;
    vp_assert(x.at(&na, first) && x.at(&nb, first + d) && x.at(&nv, 2 * d), "lengths resolve one after another");
}
// X EQU L'Y+L'W, both lengths become known later, in either order
VP_ENTRY(dep_attribute_two)
{
    asmctx x;
    int32_t n = vp_in<int32_t>("n", 1, 65535), m = vp_in<int32_t>("m", 1, 65535), v = k("v");
    mach_expr_ptr ex = bin<add>(std::make_unique<mach_expr_data_attr>(&ny, data_attr_kind::L, range(), range()), std::make_unique<mach_expr_data_attr>(&nw, data_attr_kind::L, range(), range()));
    auto l1 = sym(&nz), l2 = sym(&nv), ez = cst(n), ev = cst(m);
    vp_assert(x.equ(&nx, *ex), "no cycle");
    x.c.create_symbol(&ny, v, symbol_attributes(symbol_origin::DAT, symbol_attributes::undef_type), {});
    vp_assert(x.c.symbol_dependencies.add_dependency(&ny, data_attr_kind::L, &*l1, std::make_unique<stmt>()), "no cycle");
    x.c.create_symbol(&nw, v, symbol_attributes(symbol_origin::DAT, symbol_attributes::undef_type), {});
    vp_assert(x.c.symbol_dependencies.add_dependency(&nw, data_attr_kind::L, &*l2, std::make_unique<stmt>()), "no cycle");
    vp_assert(x.undef(&nx), "X waits for both lengths");
    bool first = vp_bool("first");
    vp_assert(first ? x.equ(&nz, *ez) : x.equ(&nv, *ev), "no cycle");
    vp_assert(x.undef(&nx), "X waits for the other length");
    vp_assert(first ? x.equ(&nv, *ev) : x.equ(&nz, *ez), "no cycle");
    vp_assert(x.is(&nx, n + m), "the length attributes");
}
