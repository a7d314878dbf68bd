// Contracts of the location counter: storage, alignment, spaces of unknown length, ORG.
// SRC: parser_library/src/context/ordinary_assembly/address.cpp parser_library/src/context/ordinary_assembly/location_counter.cpp
// SRC: parser_library/src/context/ordinary_assembly/location_counter_data.cpp
// SRC: parser_library/src/context/ordinary_assembly/section.cpp parser_library/src/context/ordinary_assembly/ordinary_assembly_context.cpp parser_library/src/context/ordinary_assembly/symbol.cpp
// SRC: parser_library/src/context/ordinary_assembly/symbol_dependency_tables.cpp parser_library/src/context/ordinary_assembly/symbol_attributes.cpp parser_library/src/context/id_storage.cpp
// SRC: parser_library/src/ebcdic_encoding.cpp parser_library/src/context/ordinary_assembly/dependant.cpp parser_library/src/context/ordinary_assembly/postponed_statement.cpp parser_library/src/context/ordinary_assembly/address_resolver.cpp parser_library/src/context/ordinary_assembly/dependency_collector.cpp
// NOTE: storage amounts are below 2^24 bytes per statement (no overflow of a location counter)
// CASES lc_data_.*|lc_align_space.*|lc_resolve.*: location counter data with at most two spaces of unknown length, any storage amounts (all obligations discharged for this structure)
// CASES lc_layout.*: up to two sections, four location counters and five reservations, any amounts (all obligations discharged for this structure)
// CASES lc_org.*: sequences of at most three ORG and five storage reservations, any amounts (all obligations discharged for this structure)
#include "vp.h"
#include "context/ordinary_assembly/location_counter.h"
#include "context/ordinary_assembly/section.h"
#include "context/ordinary_assembly/ordinary_assembly_context.h"
using namespace hlasm_plugin::parser_library;
using namespace hlasm_plugin::parser_library::context;
namespace {
alignas(64) char sect[1024];
alignas(64) char ids[1024];
const section& sec() { return *(const section*)sect; }
struct lctr : location_counter
{
    lctr(loctr_kind k = loctr_kind::STARTING)
        : location_counter(nullptr, sec(), k, *(id_storage*)ids)
    {}
};
int32_t amount(const char* n) { return vp_in<int32_t>(n, 0, 1 << 24); }
// one of the alignments of the assembler: 2^k, with an offset below it
alignment bound(const char* k, const char* b)
{
    size_t x = vp_u16(b);
    if (vp_bool(k))
        return { x & 1, 2 };
    if (vp_bool(k))
        return { x & 3, 4 };
    if (vp_bool(k))
        return { x & 7, 8 };
    if (vp_bool(k))
        return { x & 15, 16 };
    if (vp_bool(k))
        return { x & 4095, 4096 };
    return no_align;
}
int64_t sum(const location_counter_data& d)
{
    int64_t r = d.initial_storage;
    for (const auto& p : d.unknown_parts)
        r += p.storage_after;
    return r;
}
} // namespace
// ---------------------------------------------------------------- storage without unknown spaces
VP_ENTRY(lc_reserve)
{
    lctr l;
    int32_t s = amount("s"), n = amount("n");
    alignment a = bound("k", "b");
    l.reserve_storage_area(s, no_align);
    vp_assert(l.storage() == (size_t)s, "storage is reserved");
    aligned_addr r = l.reserve_storage_area(n, a);
    size_t begin = l.storage() - n;
    vp_assert(r.second == nullptr, "no unknown space");
    vp_assert(begin >= (size_t)s && begin - s < a.boundary && begin % a.boundary == a.byte, "the area begins at the next aligned location");
    vp_assert(r.first.offset() == (int)l.storage() && r.first.bases().size() == 1 && r.first.bases()[0].first.owner == &sec() && r.first.spaces().empty(), "returned address");
    address c = l.current_address();
    vp_assert(c.offset() == (int)l.storage() && c.spaces().empty() && !l.has_unresolved_spaces(), "current address");
}
VP_ENTRY(lc_align)
{
    lctr l;
    int32_t s = amount("s");
    alignment a = bound("k", "b");
    l.reserve_storage_area(s, no_align);
    l.align(a);
    size_t once = l.storage();
    vp_assert(once >= (size_t)s && once - s < a.boundary && once % a.boundary == a.byte, "aligned");
    l.align(a);
    vp_assert(l.storage() == once, "aligning twice changes nothing");
}
// ---------------------------------------------------------------- unknown spaces
VP_ENTRY(lc_data_parts)
{
    lctr l;
    location_counter_data& d = l.curr_data();
    int32_t s0 = amount("s0"), s1 = amount("s1"), s2 = amount("s2"), x = amount("x"), y = amount("y");
    l.reserve_storage_area(s0, no_align);
    space_ptr u = l.register_ordinary_space(no_align);
    l.reserve_storage_area(s1, no_align);
    space_ptr v = l.register_ordinary_space(no_align);
    l.reserve_storage_area(s2, no_align);
    vp_assert(d.storage == s0 + s1 + s2 && d.storage == sum(d), "storage is counted around the spaces");
    address a = l.current_address();
    vp_assert(a.spaces().size() == 2 && a.offset() == s0 + s1 + s2 && l.has_unresolved_spaces(), "current address contains the spaces");
    if (vp_bool("first"))
    {
        space::resolve(u, x);
        vp_assert(d.storage == s0 + x + s1 + s2 && d.storage == sum(d) && d.initial_storage == s0 + x + s1 && d.unknown_parts.size() == 1 && d.unknown_parts.front().unknown_space == v, "first space resolved");
        space::resolve(v, y);
    }
    else
    {
        space::resolve(v, y);
        vp_assert(d.storage == s0 + s1 + y + s2 && d.storage == sum(d) && d.initial_storage == s0 && d.unknown_parts.size() == 1 && d.unknown_parts.front().unknown_space == u && d.unknown_parts.front().storage_after == s1 + y + s2, "second space resolved");
        space::resolve(u, x);
    }
    vp_assert(d.storage == s0 + x + s1 + y + s2 && d.storage == d.initial_storage && d.unknown_parts.empty(), "all spaces resolved");
    vp_assert(u->resolved() && v->resolved() && u->resolved_length == x && v->resolved_length == y, "lengths of the spaces");
    vp_assert(a.offset() == s0 + x + s1 + y + s2 && !a.has_unresolved_space(), "address computed before is now known");
}
// an area behind an unknown space that ends at a known alignment
VP_ENTRY(lc_align_space)
{
    lctr l;
    alignment sa = bound("sk", "sb"), a = bound("k", "b");
    int32_t s = amount("s"), n = amount("n");
    l.register_ordinary_space(sa);
    l.reserve_storage_area(s, no_align);
    vp_assume(a.boundary <= sa.boundary);
    aligned_addr r = l.reserve_storage_area(n, a);
    vp_assert(r.second == nullptr, "no further space is needed");
    // wherever the space ends (at its alignment), the area is aligned
    size_t end = vp_in<int32_t>("end", 0, 1 << 24);
    vp_assume(end % sa.boundary == sa.byte);
    size_t pad = l.storage() - n - s;
    vp_assert(pad < a.boundary && (end + s + pad) % a.boundary == a.byte, "aligned for every end of the space");
}
// alignment larger than what is known: a space of unknown length is inserted and gets the right length later
VP_ENTRY(lc_align_space_unknown)
{
    lctr l;
    alignment sa = bound("sk", "sb"), a = bound("k", "b");
    int32_t s = amount("s"), n = amount("n");
    l.register_ordinary_space(sa);
    l.reserve_storage_area(s, no_align);
    vp_assume(a.boundary > sa.boundary);
    aligned_addr r = l.reserve_storage_area(n, a);
    vp_assert(r.second != nullptr && r.second->kind == space_kind::ALIGNMENT && r.second->align == a, "space for alignment");
    int32_t at = vp_in<int32_t>("at", 0, 1 << 24);
    space::resolve(r.second, at);
    size_t pad = r.second->resolved_length;
    vp_assert(pad < a.boundary && (at + pad) % a.boundary == a.byte, "its length aligns the location");
    vp_assert(l.curr_data().storage == s + (int)pad + n && l.curr_data().storage == sum(l.curr_data()), "storage");
}
VP_ENTRY(lc_resolve_once)
{
    lctr l;
    int32_t x = amount("x"), y = amount("y");
    space_ptr u = l.register_ordinary_space(no_align);
    space::resolve(u, x);
    space::resolve(u, y);
    vp_assert(u->resolved_length == x && l.storage() == (size_t)x, "a space gets its length once");
}
VP_ENTRY(lc_nonstarting)
{
    lctr l(loctr_kind::NONSTARTING);
    int32_t s = amount("s"), o = amount("o");
    l.reserve_storage_area(s, no_align);
    address a = l.current_address();
    vp_assert(a.has_unresolved_space() && !a.has_dependant_space() && a.in_same_loctr(l.current_address()), "the beginning of the location counter is not known yet");
    l.finish_layout(o);
    vp_assert(a.offset() == o + s && !a.has_unresolved_space() && l.storage() == (size_t)(o + s), "the layout moves the location counter");
}
// ---------------------------------------------------------------- ORG
namespace {
int32_t mx(int32_t a, int32_t b) { return a > b ? a : b; }
void org(lctr& l, int32_t to)
{
    space_ptr sp = l.set_value(address({ &sec() }, to, {}), 0, 0, false);
    vp_assert(sp == nullptr && l.storage() == (size_t)to, "ORG sets the location");
}
} // namespace
VP_ENTRY(lc_org_max)
{
    lctr l;
    int32_t s = amount("s"), t = amount("t"), a = amount("a"), b = amount("b"), u = amount("u"), v = amount("v");
    l.reserve_storage_area(s, no_align);
    int32_t high = s;
    org(l, a);
    l.reserve_storage_area(t, no_align);
    high = mx(high, a + t);
    org(l, b);
    l.reserve_storage_area(u, no_align);
    high = mx(high, b + u);
    auto [sp, addrs] = l.set_available_value();
    vp_assert(sp == nullptr && addrs.empty(), "the highest location is known");
    vp_assert(l.storage() == (size_t)high, "ORG without operand continues behind the highest location");
    l.reserve_storage_area(v, no_align);
    vp_assert(l.storage() == (size_t)(high + v) && l.curr_data().storage == sum(l.curr_data()), "and storage is reserved there");
}
VP_ENTRY(lc_org_again)
{
    lctr l;
    int32_t s = amount("s"), a = amount("a"), b = amount("b"), t = amount("t");
    l.reserve_storage_area(s, no_align);
    org(l, a);
    l.set_available_value();
    int32_t high = mx(s, a);
    vp_assert(l.storage() == (size_t)high, "highest");
    l.reserve_storage_area(t, no_align);
    org(l, b);
    l.set_available_value();
    vp_assert(l.storage() == (size_t)mx(high + t, b), "highest after a second ORG");
}
VP_ENTRY(lc_org_invalid)
{
    lctr l;
    int32_t s = amount("s"), a = vp_in<int32_t>("a", -(1 << 24), 1 << 24);
    l.reserve_storage_area(s, no_align);
    bool thrown = false;
    bool other = vp_bool("other");
    alignas(64) static char sect2[1024];
    try
    {
        l.set_value(address({ other ? (const section*)sect2 : &sec() }, a, {}), 0, 0, false);
    }
    catch (const std::runtime_error&)
    {
        thrown = true;
    }
    vp_assert(thrown == (other || a < 0), "an address of another section or below the beginning is refused");
    if (thrown)
        vp_assert(l.storage() == (size_t)s, "a refused ORG changes nothing");
}
// ---------------------------------------------------------------- sections and location counters
namespace {
const std::string n1 = "A", n2 = "B", n3 = "C";
struct asmctx
{
    id_storage st;
    ordinary_assembly_context c;
    asmctx()
        : c(st)
    {}
};
} // namespace
VP_ENTRY(lc_layout)
{
    asmctx x;
    int32_t a = amount("a"), b = amount("b"), d = amount("d"), e = amount("e");
    x.c.set_section(&n1, section_kind::COMMON, {});
    address s0 = x.c.align(no_align);
    x.c.reserve_storage_area(a, no_align);
    x.c.set_location_counter(&n2, {});
    address l0 = x.c.align(no_align);
    x.c.reserve_storage_area(b, no_align);
    x.c.set_section(&n3, section_kind::COMMON, {});
    address t0 = x.c.align(no_align);
    x.c.reserve_storage_area(d, no_align);
    address t1 = x.c.align(no_align);
    x.c.set_location_counter(&n1, {}); // back to the first location counter
    x.c.reserve_storage_area(e, no_align);
    address s1 = x.c.align(no_align);
    x.c.set_location_counter(&n2, {});
    address l1 = x.c.align(no_align);
    vp_assert(x.c.sections().size() == 2, "two sections");
    vp_assert(l0.has_unresolved_space() && l1.has_unresolved_space(), "the second location counter floats");
    x.c.finish_module_layout(nullptr);
    vp_assert(s0.offset() == 0 && s1.offset() == a + e, "the first location counter begins at zero and continues where it stopped");
    vp_assert(l0.offset() == a + e && l1.offset() == a + e + b && !l1.has_unresolved_space(), "the second one follows the first one");
    vp_assert(t0.offset() == 0 && t1.offset() == d && t0.bases()[0].first.owner != s0.bases()[0].first.owner, "another section has its own locations");
}
// ORG behind storage of unknown length, and the highest location of all
namespace {
struct noresolve : loctr_dependency_resolver
{
    void resolve_unknown_loctr_dependency(space_ptr, const address&, range) override {}
};
} // namespace
VP_ENTRY(lc_org_unknown)
{
    asmctx x;
    int32_t u = amount("u"), s = amount("s"), t = amount("t"), k = amount("k"), v = amount("v"), w = amount("w");
    vp_assume(k <= t);
    x.c.set_section(&n1, section_kind::COMMON, {});
    address a0 = x.c.align(no_align);
    space_ptr sp = x.c.register_ordinary_space(no_align);
    x.c.reserve_storage_area(s, no_align);
    address p = x.c.align(no_align);
    x.c.set_location_counter_value(a0, 0, 0, nullptr, nullptr);
    x.c.reserve_storage_area(t, no_align);
    address q = x.c.align(no_align);
    x.c.set_location_counter_value(q + (-k), 0, 0, nullptr, nullptr);
    address r = x.c.align(no_align);
    x.c.reserve_storage_area(v, no_align);
    x.c.set_available_location_counter_value(0, 0);
    address m = x.c.align(no_align);
    x.c.reserve_storage_area(w, no_align);
    address e = x.c.align(no_align);
    space::resolve(sp, u);
    noresolve nr;
    x.c.symbol_dependencies.add_defined(&nr);
    vp_assert(p.offset() == u + s, "behind the unknown storage");
    vp_assert(q.offset() == t && r.offset() == t - k, "ORG to an earlier location");
    vp_assert(m.offset() == mx(u + s, mx(t, t - k + v)) && e.offset() == m.offset() + w && !e.has_unresolved_space(), "ORG without operand continues behind the highest location");
}
// ORG with boundary and offset
namespace {
size_t boundary()
{
    size_t b = 2;
    while (b < 4096 && vp_bool("larger"))
        b *= 8;
    return b;
}
int32_t up(int32_t a, size_t b) { return a + (int32_t)((b - (size_t)a % b) % b); }
} // namespace
VP_ENTRY(lc_org_boundary)
{
    asmctx x;
    int32_t s = amount("s"), a = amount("a"), o = vp_in<int32_t>("o", -5000, 5000), v = amount("v");
    size_t b = boundary();
    x.c.set_section(&n1, section_kind::COMMON, {});
    address z = x.c.align(no_align);
    x.c.reserve_storage_area(s, no_align);
    int32_t to = up(a, b) + o;
    vp_assume(to >= 0);
    x.c.set_location_counter_value(z + a, b, o, nullptr, nullptr);
    address p = x.c.align(no_align);
    x.c.reserve_storage_area(v, no_align);
    address q = x.c.align(no_align);
    x.c.set_available_location_counter_value(0, 0);
    address m = x.c.align(no_align);
    noresolve nr;
    x.c.symbol_dependencies.add_defined(&nr);
    vp_assert(p.offset() == to && q.offset() == to + v && !m.has_unresolved_space(), "ORG continues at the boundary plus the offset");
    vp_assert(m.offset() == mx(s, to + v), "ORG without operand continues behind the highest location");
}
VP_ENTRY(lc_org_boundary_free)
{
    asmctx x;
    int32_t s = amount("s"), a = amount("a"), o = vp_in<int32_t>("o", -5000, 5000), v = amount("v");
    size_t b = boundary();
    x.c.set_section(&n1, section_kind::COMMON, {});
    address z = x.c.align(no_align);
    x.c.reserve_storage_area(s, no_align);
    x.c.set_location_counter_value(z + a, 0, 0, nullptr, nullptr);
    int32_t high = mx(s, a), to = up(high, b) + o;
    vp_assume(to >= 0);
    x.c.set_available_location_counter_value(b, o);
    address p = x.c.align(no_align);
    x.c.reserve_storage_area(v, no_align);
    x.c.set_available_location_counter_value(0, 0);
    address m = x.c.align(no_align);
    noresolve nr;
    x.c.symbol_dependencies.add_defined(&nr);
    vp_assert(p.offset() == to && !m.has_unresolved_space(), "ORG continues at the boundary plus the offset behind the highest location");
    vp_assert(m.offset() == mx(high, to + v), "ORG without operand continues behind the highest location");
}
// ORG with boundary and offset to a place in front of storage of unknown length, and behind the highest location
VP_ENTRY(lc_org_unknown_boundary)
{
    asmctx x;
    int32_t u = amount("u"), s = amount("s"), a = amount("a"), o = vp_in<int32_t>("o", -5000, 5000), v = amount("v"), o2 = vp_in<int32_t>("o2", 0, 5000);
    size_t b = boundary(), c = vp_bool("none") ? 0 : 8;
    x.c.set_section(&n1, section_kind::COMMON, {});
    address z = x.c.align(no_align);
    space_ptr sp = x.c.register_ordinary_space(no_align);
    x.c.reserve_storage_area(s, no_align);
    int32_t to = up(a, b) + o;
    vp_assume(to >= 0);
    x.c.set_location_counter_value(z + a, b, o, nullptr, nullptr);
    address p = x.c.align(no_align);
    x.c.reserve_storage_area(v, no_align);
    x.c.set_available_location_counter_value(c, o2);
    address m = x.c.align(no_align);
    space::resolve(sp, u);
    noresolve nr;
    x.c.symbol_dependencies.add_defined(&nr);
    int32_t high = mx(u + s, to + v);
    vp_assert(p.offset() == to && !m.has_unresolved_space(), "ORG continues at the boundary plus the offset");
    vp_assert(m.offset() == (c ? up(high, c) : high) + o2, "and ORG without location behind the highest location");
}
// four location counters of one section
VP_ENTRY(lc_layout_many)
{
    static const std::string n4 = "D";
    asmctx x;
    int32_t a = amount("a"), b = amount("b"), c = amount("c"), d = amount("d");
    x.c.set_section(&n1, section_kind::COMMON, {});
    x.c.reserve_storage_area(a, no_align);
    x.c.set_location_counter(&n2, {});
    x.c.reserve_storage_area(b, no_align);
    x.c.set_location_counter(&n3, {});
    address p = x.c.align(no_align);
    x.c.reserve_storage_area(c, no_align);
    x.c.set_location_counter(&n4, {});
    address q = x.c.align(no_align);
    x.c.reserve_storage_area(d, no_align);
    address e = x.c.align(no_align);
    x.c.finish_module_layout(nullptr);
    vp_assert(p.offset() == a + b && q.offset() == a + b + c && e.offset() == a + b + c + d && !e.has_unresolved_space(), "every location counter follows the one before it");
}
