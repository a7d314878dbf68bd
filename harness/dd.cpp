// Contracts of data definitions: lengths, alignments, attributes and the checks of DC and DS operands.
// SRC: parser_library/src/checking/data_definition/data_def_type_base.cpp parser_library/src/checking/data_definition/data_def_types_address.cpp
// SRC: parser_library/src/checking/data_definition/data_def_types_fixed_point.cpp parser_library/src/checking/data_definition/data_def_types_floating_point.cpp
// SRC: parser_library/src/checking/data_definition/data_def_types_string.cpp parser_library/src/checking/data_definition/data_definition_operand.cpp
// SRC: parser_library/src/checking/instr_operand.cpp
// NOTE: the diagnostic factories diagnostic_op::error_D* are replaced by ones that carry the severity only, diagnostic_collector::operator() by one that counts the errors
// CASES dc_.*|ds_.*: every type, all values of the duplication factor and of the modifiers (scale and exponent without a length), up to two nominal values (all obligations discharged for this structure)
// CASES total_.*: all values of the modifiers, up to three nominal values (all obligations discharged for this structure)
// OPT text_p: mode=bounded strcap=4 bwall=300
// OPT text_z: mode=bounded strcap=4 bwall=300
// OPT text_h: mode=bounded strcap=4 bwall=300
// OPT text_f: mode=bounded strcap=4 bwall=300
// OPT text_e: mode=bounded strcap=4 bwall=300
// OPT text_eb: mode=bounded strcap=4 bwall=300
// OPT text_dd: mode=bounded strcap=4 bwall=300
// OPT text_lh: mode=bounded strcap=4 bwall=300
// OPT *: wall=400
// CASES operands_.*: two operands, types X, H, F and D (all obligations discharged for this structure)
#include "vp.h"
#include "checking/checker_helper.h"
#include "checking/data_definition/data_def_types.h"
#include "checking/data_definition/data_definition_operand.h"
#include "diagnostic.h"
using namespace hlasm_plugin::parser_library;
using namespace hlasm_plugin::parser_library::checking;
namespace {
constexpr int NA = -1000, ANY = -2000, IGN = -3000;
enum kind_t : char
{
    STR_X, // comma separated hexadecimal or binary digits
    STR_C, // characters, one value
    STR_N, // comma separated numbers
    EXPR, // expressions
    ADDR, // expressions or D(B)
};
// High Level Assembler Language Reference, "DC instruction", summary of constants
struct spec
{
    char type, ext;
    kind_t nominal;
    int align, implicit; // implicit length 0: as needed
    int lo, hi, blo, bhi; // bytes and bits of the length modifier in DC
    int dshi; // bytes in DS when they differ (0: as in DC)
    int slo, shi, elo, ehi;
};
constexpr spec table[] = {
    { 'C', 0, STR_C, 1, 0, 1, 256, 1, 2048, 65535, NA, NA, NA, NA },
    { 'C', 'A', STR_C, 1, 0, 1, 256, 1, 2048, 65535, NA, NA, NA, NA },
    { 'C', 'E', STR_C, 1, 0, 1, 256, 1, 2048, 65535, NA, NA, NA, NA },
    { 'C', 'U', STR_C, 1, 0, 1, 256, NA, NA, 0, NA, NA, NA, NA },
    { 'G', 0, STR_C, 1, 0, 1, 256, NA, NA, 65534, NA, NA, NA, NA },
    { 'X', 0, STR_X, 1, 0, 1, 256, 1, 2048, 65535, NA, NA, NA, NA },
    { 'B', 0, STR_X, 1, 0, 1, 256, 1, 2048, 0, NA, NA, NA, NA },
    { 'P', 0, STR_N, 1, 0, 1, 16, 1, 128, 0, NA, NA, NA, NA },
    { 'Z', 0, STR_N, 1, 0, 1, 16, 1, 128, 0, NA, NA, NA, NA },
    { 'H', 0, STR_N, 2, 2, 1, 8, 1, 64, 0, -187, 346, -85, 75 },
    { 'F', 0, STR_N, 4, 4, 1, 8, 1, 64, 0, -187, 346, -85, 75 },
    { 'F', 'D', STR_N, 8, 8, 1, 8, 1, 64, 0, -187, 346, -85, 75 },
    { 'E', 0, STR_N, 4, 4, 1, 8, 1, 64, 0, 0, 5, -85, 75 },
    { 'E', 'H', STR_N, 4, 4, 1, 8, 12, 64, 0, 0, 5, -85, 75 },
    { 'E', 'D', STR_N, 4, 4, 4, 4, 32, 32, 0, IGN, IGN, -85, 75 },
    { 'E', 'B', STR_N, 4, 4, 4, 4, 32, 32, 0, IGN, IGN, -85, 75 },
    { 'D', 0, STR_N, 8, 8, 1, 8, 1, 64, 0, 0, 13, -85, 75 },
    { 'D', 'H', STR_N, 8, 8, 1, 8, 12, 64, 0, 0, 13, -85, 75 },
    { 'D', 'D', STR_N, 8, 8, 8, 8, 64, 64, 0, IGN, IGN, -85, 75 },
    { 'D', 'B', STR_N, 8, 8, 8, 8, 64, 64, 0, IGN, IGN, -85, 75 },
    { 'L', 0, STR_N, 8, 16, 1, 16, 1, 128, 0, 0, 27, -85, 75 },
    { 'L', 'H', STR_N, 8, 16, 1, 16, 12, 128, 0, 0, 27, -85, 75 },
    { 'L', 'Q', STR_N, 16, 16, 1, 16, 12, 128, 0, 0, 27, -85, 75 },
    { 'L', 'D', STR_N, 8, 16, 16, 16, 128, 128, 0, IGN, IGN, -85, 75 },
    { 'L', 'B', STR_N, 8, 16, 16, 16, 128, 128, 0, IGN, IGN, -85, 75 },
    { 'A', 0, EXPR, 4, 4, ANY, ANY, ANY, ANY, 0, NA, NA, NA, NA },
    { 'A', 'D', EXPR, 8, 8, ANY, ANY, ANY, ANY, 0, NA, NA, NA, NA },
    { 'Y', 0, EXPR, 2, 2, ANY, ANY, ANY, ANY, 0, NA, NA, NA, NA },
    { 'R', 0, EXPR, 4, 4, 3, 4, NA, NA, 0, NA, NA, NA, NA },
    { 'R', 'D', EXPR, 8, 8, ANY, ANY, NA, NA, 0, NA, NA, NA, NA },
    { 'V', 0, EXPR, 4, 4, 3, 4, NA, NA, 0, NA, NA, NA, NA },
    { 'V', 'D', EXPR, 8, 8, ANY, ANY, NA, NA, 0, NA, NA, NA, NA },
    { 'Q', 0, EXPR, 4, 4, 1, 4, NA, NA, 0, NA, NA, NA, NA },
    { 'Q', 'D', EXPR, 16, 8, 1, 8, NA, NA, 0, NA, NA, NA, NA },
    { 'Q', 'Y', EXPR, 2, 3, 3, 3, NA, NA, 0, NA, NA, NA, NA },
    { 'J', 0, EXPR, 4, 4, ANY, ANY, NA, NA, 0, NA, NA, NA, NA },
    { 'J', 'D', EXPR, 8, 8, ANY, ANY, NA, NA, 0, NA, NA, NA, NA },
    { 'S', 0, ADDR, 2, 2, 2, 2, NA, NA, 0, NA, NA, NA, NA },
    { 'S', 'Y', ADDR, 2, 3, 3, 3, NA, NA, 0, NA, NA, NA, NA },
};
constexpr size_t NT = sizeof table / sizeof *table;
const size_t FIRST_EXPR = 25;
// one of from..to, a separate case each
size_t pick(const char* name, size_t from, size_t to)
{
    (void)data_def_type::access_data_def_type('A', 0);
    size_t k = vp_in<size_t>(name, from, to);
    for (size_t i = from; i < to; ++i)
        if (k == i)
            return i;
    return to;
}
bool is(const spec& s, char t, char e) { return s.type == t && s.ext == e; }

size_t reported;
struct collect
{
    diagnostic_collector col;
    collect() { reported = 0; }
    size_t errors() const { return reported; }
};
// an operand with arbitrary modifiers
data_definition_operand operand_of(const spec& s)
{
    data_definition_operand op;
    op.type = data_def_field<char>(s.type);
    if (s.ext)
        op.extension = data_def_field<char>(s.ext);
    op.dupl_factor = data_def_field<int32_t>(vp_bool("has duplication factor"), vp_i32("duplication factor"), range());
    if (vp_bool("has length"))
        op.length = data_def_length_t(data_def_field<int32_t>(vp_i32("length")));
    op.length.len_type = op.length.present && vp_bool("in bits") ? data_def_length_t::BIT : data_def_length_t::BYTE;
    return op;
}
void scale_of(data_definition_operand& op)
{
    op.scale = scale_modifier_t(vp_bool("has scale"), (int16_t)vp_u16("scale"), range());
    op.exponent = exponent_modifier_t(vp_bool("has exponent"), vp_i32("exponent"), range());
}
bool within(long long v, int lo, int hi) { return lo <= v && v <= hi; }
bool mod_ok(bool present, long long v, int lo, int hi)
{
    if (!present || lo == ANY || lo == IGN)
        return true;
    if (lo == NA)
        return false;
    return within(v, lo, hi);
}
bool length_ok(const spec& s, const data_definition_operand& op, bool dc, bool nominal)
{
    if (!op.length.present)
        return true;
    long long v = op.length.value;
    bool bit = op.length.len_type == data_def_length_t::BIT;
    if (bit && s.blo == NA)
        return false;
    if (s.type == 'A' || s.type == 'Y')
    {
        if (!nominal)
            return true;
        int top = s.type == 'Y' ? 2 : 8;
        return bit ? within(v, 1, s.type == 'Y' ? 16 : 128) : within(v, 1, top);
    }
    if ((s.type == 'R' || s.type == 'V') && s.ext == 'D')
        return v == 3 || v == 4 || v == 8;
    if (s.type == 'J')
        return v == 2 || v == 3 || v == 4 || v == 8;
    if ((is(s, 'C', 'U') || s.type == 'G') && v % 2)
        return false;
    if (!dc && s.dshi)
        return bit ? within(v, 1, 8 * s.dshi) : within(v, 1, s.dshi);
    return bit ? within(v, s.blo, s.bhi) : within(v, s.lo, s.hi);
}
} // namespace
namespace hlasm_plugin::parser_library {
diagnostic_collector::diagnostic_collector()
    : diagnoser_(nullptr)
{}
void diagnostic_collector::operator()(diagnostic_op d) const { reported += d.severity == diagnostic_severity::error; }
#define D0(n) diagnostic_op diagnostic_op::error_D0##n(const range&) { return diagnostic_op(diagnostic_severity::error, "", ""); }
#define D1(n) diagnostic_op diagnostic_op::error_D0##n(const range&, const std::string&) { return diagnostic_op(diagnostic_severity::error, "", ""); }
D0(11)
D0(12)
D0(16)
D0(19)
D0(22)
D0(23)
D0(26)
D0(27)
D0(28)
D0(29)
D1(07)
D1(10)
D1(13)
D1(14)
D1(15)
D1(17)
D1(18)
D1(20)
D1(21)
D1(24)
D1(30)
diagnostic_op diagnostic_op::error_D008(const range&, const std::string&, const std::string&, int, int) { return diagnostic_op(diagnostic_severity::error, "", ""); }
diagnostic_op diagnostic_op::error_D009(const range&, const std::string&, const std::string&) { return diagnostic_op(diagnostic_severity::error, "", ""); }
diagnostic_op diagnostic_op::warn_D025(const range&, const std::string&, const std::string&) { return diagnostic_op(diagnostic_severity::warning, "", ""); }
} // namespace hlasm_plugin::parser_library
// ---------------------------------------------------------------- the table of types
VP_ENTRY(type_table)
{
    size_t i = vp_in<size_t>("type", 0, NT - 1);
    const spec& s = table[i];
    auto* t = data_def_type::access_data_def_type(s.type, s.ext);
    vp_assert(t, "the type exists");
    vp_assert(t->get_alignment(false) == (context::alignment { 0, (size_t)s.align }), "implicit alignment");
    vp_assert(t->get_alignment(true) == context::no_align, "no alignment with a length modifier");
    data_def_length_t none;
    if (s.implicit)
    {
        vp_assert(t->get_length_attribute(none, nominal_value_t()) == (uint32_t)s.implicit, "implicit length");
    }
    vp_assert(data_def_type::types_and_extensions.size() == NT, "and no other type");
    bool single = s.nominal == EXPR && s.type != 'A' && s.type != 'Y';
    vp_assert(t->expects_single_symbol() == single, "types of a symbol");
}
VP_ENTRY(type_unknown)
{
    char t = (char)vp_u8("type"), e = (char)vp_u8("extension");
    bool known = false, base = false;
    for (size_t i = 0; i < NT; ++i)
    {
        known = known || (table[i].type == t && table[i].ext == e);
        base = base || (table[i].type == t && table[i].ext == 0);
    }
    vp_assert((data_def_type::access_data_def_type(t, e) != nullptr) == known, "exactly the types of the language");
}
// ---------------------------------------------------------------- length modifier, duplication factor
VP_ENTRY(len_modifier)
{
    size_t i = vp_in<size_t>("type", 0, NT - 1);
    const spec& s = table[i];
    auto* t = data_def_type::access_data_def_type(s.type, s.ext);
    data_def_length_t l = data_def_length_t(data_def_field<int32_t>(vp_i32("length")));
    l.len_type = vp_bool("in bits") ? data_def_length_t::BIT : data_def_length_t::BYTE;
    uint32_t r = t->get_length_attribute(l, nominal_value_t());
    vp_assume(l.value >= 0);
    vp_assert(r == (l.len_type == data_def_length_t::BIT ? ((uint32_t)l.value + 7) / 8 : (uint32_t)l.value), "length attribute: bytes, bits rounded up");
}
namespace {
void len_total(size_t from, size_t to)
{
    size_t i = pick("type", from, to);
    const spec& s = table[i];
    auto* t = data_def_type::access_data_def_type(s.type, s.ext);
    data_definition_operand op = operand_of(s);
    size_t n = pick("values", 0, 3); // 0: no nominal value
    if (n)
    {
        op.nominal_value.present = true;
        if (s.nominal >= EXPR)
        {
            nominal_value_expressions v;
            for (size_t k = 0; k < n; ++k)
                v.push_back(data_def_expr { 0, expr_type::ABS, range(), false });
            op.nominal_value.value = std::move(v);
        }
        else
            op.nominal_value.value = std::string(n == 1 ? "1" : n == 2 ? "1,10" : "1,0,110");
    }
    vp_assume(op.dupl_factor.value >= 0 && op.length.value >= 0);
    uint64_t vals = n == 0 || s.nominal == STR_C ? 1 : n;
    uint64_t bits;
    if (op.length.present)
    {
        bits = vals * (uint64_t)op.length.value;
        if (op.length.len_type == data_def_length_t::BYTE)
            bits *= 8;
    }
    else if (s.implicit)
        bits = vals * (uint64_t)s.implicit * 8;
    else
    {
        uint64_t bytes;
        static const char* const txt[] = { "", "1", "1,10", "1,0,110" };
        uint64_t chars = n == 1 ? 1 : n == 2 ? 4 : 7;
        if (is(s, 'C', 'U'))
            bytes = n ? 2 * chars : 2;
        else if (s.type == 'C')
            bytes = n ? chars : 1;
        else if (s.type == 'G')
            bytes = n ? chars : 2;
        else if (s.type == 'X')
            bytes = n == 3 ? 4 : n == 2 ? 2 : 1;
        else if (s.type == 'B')
            bytes = n == 3 ? 3 : n == 2 ? 2 : 1;
        else if (s.type == 'P')
            bytes = n == 3 ? 4 : n == 2 ? 3 : 1;
        else
            bytes = n == 3 ? 5 : n == 2 ? 3 : 1;
        (void)txt;
        bits = 8 * bytes;
    }
    if (op.dupl_factor.present)
        bits *= (uint64_t)op.dupl_factor.value;
    vp_assert(t->get_length(op) == bits, "length of the operand: duplication x number of values x length of one");
    vp_assert(op.get_alignment() == (op.length.present ? context::no_align : context::alignment { 0, (size_t)s.align }), "alignment of the operand");
}
} // namespace
VP_ENTRY(total_c) { len_total(0, 4); }
VP_ENTRY(total_n) { len_total(5, 8); }
VP_ENTRY(total_f) { len_total(9, 11); }
VP_ENTRY(total_e) { len_total(12, 17); }
VP_ENTRY(total_l) { len_total(18, 24); }
VP_ENTRY(total_a) { len_total(25, 31); }
VP_ENTRY(total_s) { len_total(32, 38); }
// ---------------------------------------------------------------- nominal values
namespace {
enum ntype
{
    NX,
    NB,
    NP,
    NZ,
    NC,
    NU,
    NG
};
// length of all values
struct glen
{
    size_t pos;
    const std::string* s;
    ntype k;
    uint64_t total, one;
    glen(const std::string& s_, ntype k_)
        : pos(0), s(&s_), k(k_), total(0), one(0)
    {}
    uint64_t fin() const { return k == NX ? (one + 1) / 2 : k == NB ? (one + 7) / 8 : k == NP ? (one + 2) / 2 : k == NU ? 2 * one : one; }
    void step()
    {
        unsigned char c = (*s)[pos++];
        if (k == NG)
            one += c != '<' && c != '>';
        else if (k == NC)
            one += (c & 0xC0) != 0x80;
        else if (k == NU)
            one += (c & 0xC0) == 0x80 ? 0 : c >= 0xF0 ? 2 : 1;
        else if (k == NZ)
            one += c >= '0' && c <= '9';
        else if (c == ',')
        {
            total += fin();
            one = 0;
        }
        else if (k == NP)
            one += c >= '0' && c <= '9';
        else
            one += c != ' ';
    }
    bool done() const { return pos >= s->size() ; }
};
// length of the first value
struct gattr : glen
{
    using glen::glen;
    bool done() const { return pos >= s->size() || (k <= NZ && (*s)[pos] == ','); }
};
// the same count of digits in 32 bits
struct gdigits
{
    size_t pos;
    const std::string* s;
    uint32_t n;
    gdigits(const std::string& s_)
        : pos(0), s(&s_), n(0)
    {}
    void step()
    {
        unsigned char c = (*s)[pos++];
        n += c >= '0' && c <= '9';
    }
    bool done() const { return pos >= s->size() || (*s)[pos] == ','; }
};
void nominal_length(char type, char ext, ntype k, const char* alphabet)
{
    nominal_value_t nom;
    nom.present = true;
    nom.value = vp_string("nominal", alphabet);
    auto* t = data_def_type::access_data_def_type(type, ext);
    glen g(std::get<std::string>(nom.value), k);
    vp_ghost(g);
    uint64_t r = t->get_nominal_length(nom);
    vp_finish(g);
    vp_assert(r == g.total + g.fin(), "implicit length is the length of all values");
}
void nominal_attr(char type, char ext, ntype k, const char* alphabet)
{
    nominal_value_t nom;
    nom.present = true;
    nom.value = vp_string("nominal", alphabet);
    auto* t = data_def_type::access_data_def_type(type, ext);
    if (k == NP || k == NZ)
    {
        gdigits g(std::get<std::string>(nom.value));
        vp_ghost(g);
        uint32_t r = t->get_nominal_length_attribute(nom);
        vp_finish(g);
        vp_assert(r == (k == NP ? (g.n + 2) / 2 : g.n), "length attribute is the length of the first value");
        return;
    }
    gattr g(std::get<std::string>(nom.value), k);
    vp_ghost(g);
    uint32_t r = t->get_nominal_length_attribute(nom);
    vp_finish(g);
    vp_assert(r == (uint32_t)g.fin(), "length attribute is the length of the first value");
}
} // namespace
VP_ENTRY(nom_attr_wrong)
{
    size_t i = vp_in<size_t>("type", 0, FIRST_EXPR - 1);
    const spec& s = table[i];
    auto* t = data_def_type::access_data_def_type(s.type, s.ext);
    nominal_value_t nom;
    nom.present = true;
    nominal_value_expressions v;
    v.push_back(data_def_expr { 0, expr_type::ABS, range(), false });
    nom.value = std::move(v);
    vp_assert(t->get_length_attribute(data_def_length_t(), nom) == (uint32_t)s.implicit && t->get_implicit_scale(nom) == 0, "expressions where text is expected are no failure");
}
VP_ENTRY(nom_len_x) { nominal_length('X', 0, NX, "1A ,"); }
VP_ENTRY(nom_len_b) { nominal_length('B', 0, NB, "10 ,"); }
VP_ENTRY(nom_len_p) { nominal_length('P', 0, NP, "10+-.,"); }
VP_ENTRY(nom_len_z) { nominal_length('Z', 0, NZ, "10+-.,"); }
VP_ENTRY(nom_len_c) { nominal_length('C', 0, NC, "A,'\xc3\xa9\xe2\xf0\x80"); }
VP_ENTRY(nom_len_u) { nominal_length('C', 'U', NU, "A,'\xc3\xa9\xe2\xf0\x80"); }
VP_ENTRY(nom_len_g) { nominal_length('G', 0, NG, "A<>,"); }
VP_ENTRY(nom_attr_x) { nominal_attr('X', 0, NX, "1A ,"); }
VP_ENTRY(nom_attr_b) { nominal_attr('B', 0, NB, "10 ,"); }
VP_ENTRY(nom_attr_p) { nominal_attr('P', 0, NP, "10+-.,"); }
VP_ENTRY(nom_attr_z) { nominal_attr('Z', 0, NZ, "10+-.,"); }
VP_ENTRY(nom_attr_c) { nominal_attr('C', 0, NC, "A,'\xc3\xa9\xe2\xf0\x80"); }
VP_ENTRY(nom_attr_u) { nominal_attr('C', 'U', NU, "A,'\xc3\xa9\xe2\xf0\x80"); }
VP_ENTRY(nom_attr_g) { nominal_attr('G', 0, NG, "A<>,"); }
// ---------------------------------------------------------------- the checks of DC and DS
namespace {
void verdict(bool dc, size_t from, size_t to)
{
    size_t i = pick("type", from, to);
    const spec& s = table[i];
    auto* t = data_def_type::access_data_def_type(s.type, s.ext);
    data_definition_operand op = operand_of(s);
    if (!op.length.present)
        scale_of(op);
    size_t n = pick("nominal value", 0, 4); // absent, text, one, two expressions, address
    bool abs = true, fits = true;
    if (n)
        op.nominal_value.present = true;
    if (n == 1)
        op.nominal_value.value = std::string("1");
    else if (n)
    {
        nominal_value_expressions v;
        for (size_t k = 0; k < (n == 3 ? 2 : 1); ++k)
            if (n == 4)
            {
                data_def_address a;
                a.displacement = data_def_field<int32_t>(vp_i32("displacement"));
                a.base = data_def_field<int32_t>(vp_i32("base"));
                a.ignored = vp_bool("ignored");
                if (!a.ignored)
                    fits = fits && (s.ext ? within(a.displacement.value, -524288, 524287) : within(a.displacement.value, 0, 4095)) && within(a.base.value, 0, 15);
                v.push_back(a);
            }
            else
            {
                data_def_expr e { vp_i32("value"), vp_bool("relocatable") ? expr_type::RELOC : expr_type::ABS, range(), vp_bool("ignored") };
                if (!e.ignored)
                {
                    abs = abs && e.ex_kind == expr_type::ABS;
                    fits = fits && (s.ext ? within(e.value, -524288, 524287) : within(e.value, 0, 4095));
                }
                v.push_back(e);
            }
        op.nominal_value.value = std::move(v);
    }
    bool ok = !op.dupl_factor.present || op.dupl_factor.value >= 0;
    ok = ok && mod_ok(op.scale.present, op.scale.value, s.slo, s.shi) && mod_ok(op.exponent.present, op.exponent.value, s.elo, s.ehi);
    bool kind = n == 0 || (s.nominal == ADDR ? n != 1 : s.nominal == EXPR ? n == 2 || n == 3 : n == 1);
    ok = ok && kind;
    if (n == 0)
        ok = ok && (!dc || (op.dupl_factor.present && op.dupl_factor.value == 0));
    if (s.nominal == ADDR)
        ok = ok && fits;
    ok = ok && length_ok(s, op, dc, n);
    if ((s.type == 'A' || s.type == 'Y') && n && op.length.present && !abs)
        ok = ok && op.length.len_type == data_def_length_t::BYTE && within(op.length.value, 2, s.type == 'Y' ? 2 : s.ext ? 8 : 4);
    if (ok)
    {
        uint64_t bits = t->get_length(op);
        ok = bits < (1ull << 34);
    }
    collect c;
    bool r = dc ? t->check_DC(op, c.col) : t->check_DS(op, c.col);
    vp_assert(r == ok, "accepted exactly when the language allows it");
    vp_assert((c.errors() == 0) == ok, "an error is reported exactly when the operand is not allowed");
}
} // namespace
VP_ENTRY(dc_c) { verdict(true, 0, 4); }
VP_ENTRY(dc_n) { verdict(true, 5, 8); }
VP_ENTRY(dc_f) { verdict(true, 9, 11); }
VP_ENTRY(dc_e) { verdict(true, 12, 17); }
VP_ENTRY(dc_l) { verdict(true, 18, 24); }
VP_ENTRY(dc_a) { verdict(true, 25, 27); }
VP_ENTRY(dc_r) { verdict(true, 28, 31); }
VP_ENTRY(dc_q) { verdict(true, 32, 36); }
VP_ENTRY(dc_s) { verdict(true, 37, 38); }
VP_ENTRY(ds_c) { verdict(false, 0, 4); }
VP_ENTRY(ds_n) { verdict(false, 5, 8); }
VP_ENTRY(ds_f) { verdict(false, 9, 11); }
VP_ENTRY(ds_e) { verdict(false, 12, 17); }
VP_ENTRY(ds_l) { verdict(false, 18, 24); }
VP_ENTRY(ds_a) { verdict(false, 25, 27); }
VP_ENTRY(ds_r) { verdict(false, 28, 31); }
VP_ENTRY(ds_q) { verdict(false, 32, 36); }
VP_ENTRY(ds_s) { verdict(false, 37, 38); }
// ---------------------------------------------------------------- text of the nominal value
namespace {
// X and B: digits with spaces anywhere, a digit between commas
struct gdig
{
    size_t pos;
    const std::string* s;
    bool hex, digit, wrong;
    gdig(const std::string& s_, bool h)
        : pos(0), s(&s_), hex(h), digit(false), wrong(false)
    {}
    bool bad() const { return wrong; }
    void step()
    {
        char c = (*s)[pos++];
        if (c == ',')
        {
            wrong = wrong || !digit;
            digit = false;
        }
        else if (c == '0' || c == '1' || (hex && ((c >= '2' && c <= '9') || (c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f'))))
            digit = true;
        else if (c != ' ')
            wrong = true;
    }
    bool done() const { return pos >= s->size() || bad(); }
};
void text_digits(char type, const char* alphabet)
{
    data_definition_operand op;
    op.nominal_value.present = true;
    op.nominal_value.value = vp_string("nominal", alphabet);
    auto* t = data_def_type::access_data_def_type(type, 0);
    gdig g(std::get<std::string>(op.nominal_value.value), type == 'X');
    vp_ghost(g);
    collect c;
    bool r = t->check(op, c.col, true);
    vp_finish(g);
    vp_assert(r == (!g.wrong && g.digit), "accepted exactly when every value has a digit and nothing but digits and spaces");
    vp_assert((c.errors() == 0) == r, "an error is reported exactly when it is not accepted");
}
enum nstate : char
{
    S_START,
    S_NUM,
    S_EXP,
    S_EXPSIGN,
    S_EXPDIG,
    S_ROUND,
    S_BAD,
};
// [sign] digits with at most one dot and spaces, [E[sign]digits], [Rmode]
struct gnum
{
    size_t pos;
    const std::string* s;
    char type, ext;
    nstate st;
    bool digit, dot;
    unsigned mode; // rounding mode: 0..15, 16 for anything else, 100 for no digits
    gnum(const std::string& s_, char t, char e)
        : pos(0), s(&s_), type(t), ext(e), st(S_START), digit(false), dot(false), mode(100)
    {}
    bool bad() const { return st == S_BAD; }
    bool flt() const { return type == 'E' || type == 'D' || type == 'L'; }
    bool mode_ok() const
    {
        if (ext == 'B' || ext == 'H')
            return mode == 1 || (mode >= 4 && mode <= 7);
        return ext == 'D' && mode >= 8 && mode <= 15;
    }
    bool value_ok() const { return st == S_NUM ? digit : st == S_EXPDIG ? true : st == S_ROUND && mode_ok(); }
    void step()
    {
        char c = (*s)[pos++];
        bool d = c >= '0' && c <= '9';
        if (st == S_BAD)
            return;
        if (c == ',')
        {
            st = value_ok() ? S_START : S_BAD;
            digit = dot = false;
            mode = 100;
            return;
        }
        if ((st == S_START || st == S_NUM) && (d || c == '.' || c == ' '))
        {
            st = c == '.' && dot ? S_BAD : S_NUM;
            digit = digit || d;
            dot = dot || c == '.';
        }
        else if (st == S_START && (c == '+' || c == '-' || (c == 'U' && (type == 'H' || type == 'F'))))
            st = S_NUM;
        else if (st == S_NUM && digit && c == 'E' && type != 'P' && type != 'Z')
            st = S_EXP;
        else if (st == S_EXP && (c == '+' || c == '-'))
            st = S_EXPSIGN;
        else if ((st == S_EXP || st == S_EXPSIGN || st == S_EXPDIG) && d)
            st = S_EXPDIG;
        else if (((st == S_NUM && digit) || st == S_EXPDIG) && c == 'R' && flt())
            st = S_ROUND;
        else if (st == S_ROUND && d)
        {
            unsigned v = c - '0';
            mode = mode == 100 ? v : mode == 1 && v <= 5 ? 10 + v : 16;
        }
        else
            st = S_BAD;
    }
    bool done() const { return pos >= s->size() || bad(); }
};
void text_number(char type, char ext, const char* alphabet)
{
    data_definition_operand op;
    op.nominal_value.present = true;
    op.nominal_value.value = vp_string("nominal", alphabet);
    auto* t = data_def_type::access_data_def_type(type, ext);
    gnum g(std::get<std::string>(op.nominal_value.value), type, ext);
    vp_ghost(g);
    collect c;
    bool r = t->check(op, c.col, true);
    vp_finish(g);
    vp_assert(r == g.value_ok(), "accepted exactly when every value is a number of the type");
    vp_assert((c.errors() == 0) == r, "an error is reported exactly when it is not accepted");
}
} // namespace
VP_ENTRY(text_x) { text_digits('X', "1Af, G"); }
VP_ENTRY(text_b) { text_digits('B', "01, 2"); }
VP_ENTRY(text_p) { text_number('P', 0, "10+-., U"); }
VP_ENTRY(text_z) { text_number('Z', 0, "10+-., U"); }
VP_ENTRY(text_h) { text_number('H', 0, "10+-., UE"); }
VP_ENTRY(text_f) { text_number('F', 'D', "10+-., UE"); }
VP_ENTRY(text_e) { text_number('E', 0, "10+-., ER"); }
VP_ENTRY(text_eb) { text_number('E', 'B', "147+-., ER"); }
VP_ENTRY(text_dd) { text_number('D', 'D', "1058+-., ER"); }
VP_ENTRY(text_lh) { text_number('L', 'H', "147+-., ER"); }
namespace {
struct nspec
{
    static bool is_end_char(char c) { return c == ',' || c == 'E' || c == 'R'; }
    static bool is_sign_char(char c) { return c == '+' || c == '-'; }
};
// one number from a position on: digits, at most one dot, spaces
struct gone
{
    size_t pos;
    const std::string* s;
    bool digit, dot, pdigit, pdot, wrong;
    gone(const std::string& s_, size_t p)
        : pos(p), s(&s_), digit(false), dot(false), pdigit(false), pdot(false), wrong(false)
    {}
    void step()
    {
        char c = (*s)[pos];
        bool d = c >= '0' && c <= '9';
        wrong = (!d && c != ' ' && c != '.') || (c == '.' && dot);
        digit = digit || d;
        dot = dot || c == '.';
        if (c != ' ')
        {
            pdigit = d;
            pdot = c == '.';
        }
        pos += !wrong;
    }
    bool done() const { return pos >= s->size() || wrong || nspec::is_end_char((*s)[pos]); }
};
struct gexp
{
    size_t pos;
    const std::string* s;
    bool digit;
    gexp(const std::string& s_, size_t p)
        : pos(p), s(&s_), digit(false)
    {}
    void step()
    {
        ++pos;
        digit = true;
    }
    bool done() const { return pos >= s->size() || (*s)[pos] < '0' || (*s)[pos] > '9'; }
};
} // namespace
VP_ENTRY(number)
{
    std::string s = vp_string("text", "10+-., ER");
    size_t from = vp_u64("from");
    vp_assume(from < s.size());
    size_t i = from;
    gone g(s, from + (s[from] == '+' || s[from] == '-'));
    vp_ghost(g);
    bool r = check_number<nspec>(s, i);
    vp_finish(g);
    vp_assert(r == (!g.wrong && g.digit && (g.pdigit || g.pdot)), "a number has a digit, at most one dot, and nothing else but spaces");
    vp_assert(!r || i == g.pos, "the position is behind the number");
}
VP_ENTRY(exponent)
{
    std::string s = vp_string("text", "10+-., ER");
    size_t from = vp_u64("from");
    vp_assume(from < s.size() && s[from] == 'E');
    size_t i = from;
    size_t sign = from + 1 < s.size() && (s[from + 1] == '+' || s[from + 1] == '-');
    gexp g(s, from + 1 + sign);
    vp_ghost(g);
    bool r = check_exponent(s, i);
    vp_finish(g);
    vp_assert(i == g.pos, "the position is behind the exponent");
    vp_assert(r == g.digit, "an exponent has a digit");
}
// ---------------------------------------------------------------- scale and integer attributes
namespace {
struct gscale
{
    size_t pos;
    const std::string* s;
    uint16_t n;
    bool frac;
    gscale(const std::string& s_)
        : pos(0), s(&s_), n(0), frac(false)
    {}
    void step()
    {
        char c = (*s)[pos++];
        if (c == '.')
            frac = true;
        else if (frac)
            ++n;
    }
    bool done() const { return pos >= s->size() || (*s)[pos] == ','; }
};
void scale_text(char type)
{
    nominal_value_t nom;
    nom.present = true;
    nom.value = vp_string("nominal", "10+-.,");
    auto* t = data_def_type::access_data_def_type(type, 0);
    gscale g(std::get<std::string>(nom.value));
    vp_ghost(g);
    int16_t r = t->get_scale_attribute(scale_modifier_t(), nom);
    vp_finish(g);
    vp_assert(r == (int16_t)g.n, "scale attribute: digits behind the dot of the first value");
}
} // namespace
VP_ENTRY(scale_p) { scale_text('P'); }
VP_ENTRY(scale_z) { scale_text('Z'); }
VP_ENTRY(scale_modifier)
{
    const spec& s = table[pick("type", 0, NT - 1)];
    auto* t = data_def_type::access_data_def_type(s.type, s.ext);
    int16_t v = (int16_t)vp_u16("scale");
    bool with = vp_bool("present");
    int16_t r = t->get_scale_attribute(scale_modifier_t(with, v, range()), nominal_value_t());
    vp_assert(r == (with ? v : 0), "scale attribute: the modifier, 0 without it");
}
VP_ENTRY(integer)
{
    const spec& s = table[pick("type", 0, NT - 1)];
    auto* t = data_def_type::access_data_def_type(s.type, s.ext);
    data_def_length_t l = data_def_length_t(data_def_field<int32_t>(vp_in<int32_t>("length", 1, 65535)));
    int16_t v = (int16_t)vp_u16("scale");
    int64_t L = l.value, S = v, want = 0;
    if (s.type == 'H' || s.type == 'F')
        want = 8 * L - S - 1;
    else if (s.type == 'P')
        want = 2 * L - S - 1;
    else if (s.type == 'Z')
        want = L - S;
    else if ((s.type == 'E' || s.type == 'D' || s.type == 'L') && s.ext != 'D' && s.ext != 'B')
        want = L > 8 ? 2 * (L - 1) - S - 2 : 2 * (L - 1) - S;
    vp_assert(t->get_integer_attribute(l, scale_modifier_t(true, v, range()), nominal_value_t()) == want, "integer attribute");
    data_definition_operand op;
    op.type = data_def_field<char>(s.type);
    if (s.ext)
        op.extension = data_def_field<char>(s.ext);
    op.length = l;
    op.scale = scale_modifier_t(true, v, range());
    vp_assert((int32_t)op.get_integer_attribute() == want && op.get_scale_attribute() == v && op.get_length_attribute() == (uint32_t)L, "attributes of the operand are those of its type");
}
VP_ENTRY(operand_type)
{
    size_t i = pick("type", 0, NT - 1);
    const spec& s = table[i];
    data_definition_operand op;
    op.type = data_def_field<char>(s.type);
    size_t k = pick("extension", 0, 2);
    if (k == 1 && s.ext)
        op.extension = data_def_field<char>(s.ext);
    if (k == 2)
        op.extension = data_def_field<char>('Z');
    collect c;
    auto [t, ok] = op.check_type_and_extension(c.col);
    char ext = k == 1 ? s.ext : 0;
    vp_assert(t == data_def_type::access_data_def_type(s.type, ext), "the type, without an extension it does not have");
    vp_assert(ok == (k != 2) && (c.errors() == 0) == ok, "an unknown extension is reported");
}
VP_ENTRY(operand_unknown)
{
    data_definition_operand op;
    static const char no[] = "IKMNOTUW";
    op.type = data_def_field<char>(no[pick("type", 0, 7)]);
    if (vp_bool("extension"))
        op.extension = data_def_field<char>('D');
    collect c;
    auto [t, ok] = op.check_type_and_extension(c.col);
    vp_assert(!t && !ok && c.errors() == 1, "an unknown type is reported");
    vp_assert(op.get_length() == 0 && op.get_alignment() == context::no_align && op.get_length_attribute() == 0 && op.get_scale_attribute() == 0 && op.get_integer_attribute() == 0, "an unknown type has no length");
}
// ---------------------------------------------------------------- several operands
namespace {
// an allowed operand of DS
data_definition_operand storage(const spec& s, bool with, bool bits)
{
    data_definition_operand op;
    op.type = data_def_field<char>(s.type);
    if (s.ext)
        op.extension = data_def_field<char>(s.ext);
    op.dupl_factor = data_def_field<int32_t>(true, vp_in<int32_t>("duplication factor", 0, 1 << 20), range());
    if (with)
    {
        op.length = data_def_length_t(data_def_field<int32_t>(vp_in<int32_t>("length", s.blo, bits ? s.bhi : s.hi)));
        op.length.len_type = bits ? data_def_length_t::BIT : data_def_length_t::BYTE;
    }
    return op;
}
uint64_t put(uint64_t at, const spec& s, const data_definition_operand& op)
{
    uint64_t one = op.length.present ? (uint64_t)op.length.value : s.implicit ? s.implicit : 1;
    if (op.length.len_type == data_def_length_t::BYTE)
    {
        uint64_t al = op.length.present ? 8 : 8 * (uint64_t)s.align;
        at = (at + al - 1) / al * al;
        one *= 8;
    }
    return at + (uint64_t)op.dupl_factor.value * one;
}
void operands(bool with2)
{
    static constexpr size_t idx[] = { 5, 9, 10, 16 }; // X H F D
    const spec& s1 = table[idx[pick("first type", 0, 3)]];
    const spec& s2 = table[idx[pick("second type", 0, 3)]];
    size_t k1 = pick("first length", 0, 2); // none, bytes, bits
    size_t k2 = with2 ? pick("second length", 1, 2) : 0;
    data_definition_operand a = storage(s1, k1, k1 == 2), b = storage(s2, k2, k2 == 2);
    uint64_t bits = put(put(0, s1, a), s2, b);
    std::vector<const data_definition_operand*> v;
    v.push_back(&a);
    v.push_back(&b);
    vp_assert(data_definition_operand::get_operands_length<data_instr_type::DS>(v) == (bits + 7) / 8, "operands follow one another, each on its boundary");
}
} // namespace
VP_ENTRY(operands_implicit) { operands(false); }
VP_ENTRY(operands_explicit) { operands(true); }
VP_ENTRY(operands_bad)
{
    const spec& s = table[pick("type", 0, NT - 1)];
    data_definition_operand a, b;
    a.type = data_def_field<char>('X');
    b.type = data_def_field<char>(s.type);
    if (s.ext)
        b.extension = data_def_field<char>(s.ext);
    b.dupl_factor = data_def_field<int32_t>(true, vp_i32("duplication factor"), range());
    vp_assume(b.dupl_factor.value < 0);
    std::vector<const data_definition_operand*> v;
    v.push_back(&a);
    v.push_back(&b);
    vp_assert(data_definition_operand::get_operands_length<data_instr_type::DS>(v) == 0, "no storage for a wrong operand");
    vp_assert(data_definition_operand::get_operands_length<data_instr_type::DC>(v) == 0, "no storage for a wrong operand");
}
