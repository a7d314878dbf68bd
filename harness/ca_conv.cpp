// Contracts of the conditional-assembly conversion functions (A2x B2x C2x D2x X2x, IS*, BYTE, SIGNED) and of
// self-defining terms. Everything goes through ca_function::evaluate, i.e. the dispatch is under contract too.
// SRC: parser_library/src/expressions/conditional_assembly/terms/ca_function.cpp parser_library/src/expressions/conditional_assembly/terms/ca_constant.cpp
// SRC: parser_library/src/expressions/conditional_assembly/terms/ca_string.cpp parser_library/src/expressions/conditional_assembly/ca_expression.cpp
// SRC: parser_library/src/expressions/conditional_assembly/ca_expr_policy.cpp parser_library/src/context/common_types.cpp
// SRC: parser_library/src/diagnostic.cpp parser_library/src/ebcdic_encoding.cpp parser_library/src/lexing/lexer.cpp
// SRC: parser_library/src/diagnostic_adder.cpp
// IRINC: include/ir/vp_sstream.h
#include "ca_env.h"
#include "expressions/conditional_assembly/ca_expr_policy.h"
#include "expressions/conditional_assembly/terms/ca_constant.h"
#include "expressions/conditional_assembly/terms/ca_function.h"
#include "ebcdic_encoding.h"
using namespace hlasm_plugin::parser_library;
using namespace hlasm_plugin::parser_library::expressions;
using context::SET_t;
using context::SET_t_enum;
namespace {
SET_t call(ca_env& e, ca_expr_funcs f, SET_t p)
{
    std::vector<ca_expr_ptr> ps;
    ps.push_back(mk(std::move(p)));
    ca_function fn(nullptr, f, std::move(ps), nullptr, range());
    return fn.evaluate(e.ctx);
}
// expected: a diagnosed invalid argument
bool bad(ca_env& e) { return e.count() == 1 && e.code() == "CE007"; }

int dec_digit(char c) { return c >= '0' && c <= '9' ? c - '0' : -1; }
int hex_digit(char c)
{
    return c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'F' ? c - 'A' + 10 : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1;
}
// specification of the numeric readings; false: not a valid constant
bool read_pow2(const std::string& s, size_t maxlen, unsigned bits, uint32_t& v)
{
    v = 0;
    if (s.size() > maxlen)
        return false;
    for (size_t i = 0; i < s.size(); ++i)
    {
        int d = hex_digit(s[i]);
        if (d < 0 || d >= (1 << bits))
            return false;
        v = (v << bits) + (uint32_t)d;
    }
    return true;
}
bool read_dec(const std::string& s, int64_t& v)
{
    uint64_t u = 0;
    if (s.size() > 11)
        return false;
    size_t i = s.size() && (s[0] == '+' || s[0] == '-') ? 1 : 0;
    if (i == s.size())
        return false;
    for (size_t j = i; j < s.size(); ++j)
    {
        if (dec_digit(s[j]) < 0)
            return false;
        u = u * 10 + (uint64_t)(unsigned char)s[j] - '0';
    }
    v = i && s[0] == '-' ? (int64_t)(0 - u) : (int64_t)u;
    return v >= INT32_MIN && v <= INT32_MAX;
}
// exactly the signed decimal reading, no superfluous zeros
bool is_dec_of(const std::string& s, int32_t v, bool plus)
{
    uint64_t m = v < 0 ? 0u - (uint32_t)v : (uint32_t)v;
    size_t i = 0;
    if (v < 0)
    {
        if (s.size() < 2 || s[0] != '-')
            return false;
        i = 1;
    }
    else if (plus)
    {
        if (s.size() < 2 || s[0] != '+')
            return false;
        i = 1;
    }
    else if (s.empty())
        return false;
    if (s.size() - i > 1 && s[i] == '0')
        return false;
    if (s.size() - i > 10)
        return false;
    uint64_t r = 0;
    for (; i < s.size(); ++i)
    {
        if (dec_digit(s[i]) < 0)
            return false;
        r = r * 10 + (uint64_t)(unsigned char)s[i] - '0';
    }
    return r == m;
}
const char* const HEX = "0123456789ABCDEF";
} // namespace

// ------------------------------------------------------------------------------------------ to arithmetic
namespace {
// a string with an arbitrary invalid character at an arbitrary position
std::string spoiled(const char* alphabet, int (*digit)(char), int lim, bool sign_ok)
{
    std::string s = vp_string("s", alphabet);
    size_t k = (size_t)vp_in<int>("k", 0, 40);
    vp_assume(k < s.size());
    char c = (char)vp_u8("c");
    vp_assume(digit(c) < 0 || digit(c) >= lim);
    vp_assume(!(sign_ok && k == 0 && (c == '+' || c == '-')));
    s[k] = c;
    return s;
}
void value_post(ca_env& e, SET_t r, const std::string& s, size_t maxlen, unsigned bits)
{
    uint32_t v;
    if (read_pow2(s, maxlen, bits, v))
        vp_assert(e.count() == 0 && r.type == SET_t_enum::A_TYPE && r.access_a() == (int32_t)v, "value of the constant");
    else
        vp_assert(bad(e), "too long constant is diagnosed");
}
} // namespace
// OPT toa_b2a: shortloop=34
VP_ENTRY(toa_b2a)
{
    std::string s = vp_string_of("s", "01");
    ca_env e;
    value_post(e, call(e, ca_expr_funcs::B2A, s), s, 32, 1);
}
VP_ENTRY(toa_b2a_bad)
{
    std::string s = spoiled("01", hex_digit, 2, false);
    ca_env e;
    SET_t r = call(e, ca_expr_funcs::B2A, s);
    vp_assert(bad(e), "B2A rejects");
}
// OPT toa_x2a: shortloop=12
VP_ENTRY(toa_x2a)
{
    std::string s = vp_string_of("s", "0123456789ABCDEFabcdef");
    ca_env e;
    value_post(e, call(e, ca_expr_funcs::X2A, s), s, 8, 4);
}
VP_ENTRY(toa_x2a_bad)
{
    std::string s = spoiled("0123456789ABCDEFabcdef", hex_digit, 16, false);
    ca_env e;
    SET_t r = call(e, ca_expr_funcs::X2A, s);
    vp_assert(bad(e), "X2A rejects");
}
// OPT toa_d2a: shortloop=14
VP_ENTRY(toa_d2a)
{
    std::string s = vp_string_of("s", "0123456789");
    uint8_t sg = vp_in<uint8_t>("sign", 0, 2);
    if (sg)
        s = (sg == 1 ? "+" : "-") + s;
    ca_env e;
    SET_t r = call(e, ca_expr_funcs::D2A, s);
    int64_t v;
    if (s.empty())
        vp_assert(e.count() == 0 && r.access_a() == 0, "D2A of an empty string is zero");
    else if (read_dec(s, v))
        vp_assert(e.count() == 0 && r.type == SET_t_enum::A_TYPE && r.access_a() == v, "D2A value");
    else
        vp_assert(bad(e), "D2A rejects");
}
VP_ENTRY(toa_d2a_bad)
{
    std::string s = spoiled("0123456789+-", dec_digit, 10, true);
    ca_env e;
    SET_t r = call(e, ca_expr_funcs::D2A, s);
    vp_assert(bad(e), "D2A rejects");
}
// C2A: the EBCDIC codes of up to four single-byte characters, right aligned
VP_ENTRY(toa_c2a)
{
    std::string s = vp_string("s");
    vp_assume(s.size() > 4 || ((s.size() < 1 || (s[0] & 0x80) == 0) && (s.size() < 2 || (s[1] & 0x80) == 0) && (s.size() < 3 || (s[2] & 0x80) == 0) && (s.size() < 4 || (s[3] & 0x80) == 0)));
    ca_env e;
    SET_t r = call(e, ca_expr_funcs::C2A, s);
    if (s.size() > 4)
        vp_assert(bad(e), "C2A rejects more than four characters");
    else
    {
        uint32_t v = 0;
        for (size_t i = 0; i < s.size(); ++i)
            v = v * 256 + ebcdic_encoding::a2e[(unsigned char)s[i]];
        vp_assert(e.count() == 0 && r.type == SET_t_enum::A_TYPE && r.access_a() == (int32_t)v, "C2A value");
    }
}
// ------------------------------------------------------------------------------------------ predicates
namespace {
void is_yes(ca_expr_funcs f, const char* alphabet, size_t maxlen)
{
    std::string s = vp_string_of("s", alphabet);
    ca_env e;
    SET_t r = call(e, f, s);
    if (s.empty())
        vp_assert(bad(e), "an empty string is diagnosed");
    else
        vp_assert(e.count() == 0 && r.type == SET_t_enum::A_TYPE && r.access_a() == (s.size() <= maxlen ? 1 : 0), "accepted up to the length limit");
}
void is_no(ca_expr_funcs f, const char* alphabet, int lim)
{
    std::string s = spoiled(alphabet, hex_digit, lim, false);
    ca_env e;
    SET_t r = call(e, f, s);
    vp_assert(e.count() == 0 && r.type == SET_t_enum::A_TYPE && r.access_a() == 0, "rejected");
}
} // namespace
VP_ENTRY(is_bin_yes) { is_yes(ca_expr_funcs::ISBIN, "01", 32); }
VP_ENTRY(is_bin_no) { is_no(ca_expr_funcs::ISBIN, "01", 2); }
VP_ENTRY(is_hex_yes) { is_yes(ca_expr_funcs::ISHEX, "0123456789ABCDEFabcdef", 8); }
VP_ENTRY(is_hex_no) { is_no(ca_expr_funcs::ISHEX, "0123456789ABCDEFabcdef", 16); }
VP_ENTRY(is_dec_no) { is_no(ca_expr_funcs::ISDEC, "0123456789", 10); }
// OPT is_dec_yes: shortloop=14
VP_ENTRY(is_dec_yes)
{
    std::string s = vp_string_of("s", "0123456789");
    ca_env e;
    SET_t r = call(e, ca_expr_funcs::ISDEC, s);
    int64_t v;
    if (s.empty())
        vp_assert(bad(e), "ISDEC rejects an empty string");
    else
        vp_assert(e.count() == 0 && r.access_a() == (s.size() <= 10 && read_dec(s, v) ? 1 : 0), "ISDEC");
}
namespace {
bool sym_char(char c)
{
    return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_' || c == '@' || c == '$' || c == '#';
}
} // namespace
// a symbol: 1..63 alphanumeric or national characters, the first one not a digit
VP_ENTRY(is_sym_yes)
{
    std::string s = vp_string("s", "aZ@#$_09");
    vp_assume(!s.empty());
    ca_env e;
    SET_t r = call(e, ca_expr_funcs::ISSYM, s);
    vp_assert(e.count() == 0 && r.type == SET_t_enum::A_TYPE, "ISSYM is not diagnosed");
    if (s.size() > 63 || dec_digit(s[0]) >= 0)
        vp_assert(r.access_a() == 0, "ISSYM rejects long names and leading digits");
    else if (r.access_a() != 0)
    {
        vp_assert(r.access_a() == 1, "ISSYM is 0 or 1");
        VP_FORALL(k, s.size())
            vp_assert(sym_char(s[k]), "ISSYM accepts only symbol characters");
    }
}
VP_ENTRY(is_sym_no)
{
    std::string s = vp_string("s", "aZ@#$_09");
    vp_assume(!s.empty() && s.size() < 64 && dec_digit(s[0]) < 0);
    // an arbitrary position holds an arbitrary non-symbol character
    size_t k = (size_t)vp_in<int>("k", 0, 62);
    vp_assume(k < s.size());
    uint8_t c = vp_u8("c");
    vp_assume(!sym_char((char)c));
    s[k] = (char)c;
    ca_env e;
    SET_t r = call(e, ca_expr_funcs::ISSYM, s);
    vp_assert(e.count() == 0 && r.access_a() == 0, "ISSYM rejects any other character");
}
// ------------------------------------------------------------------------------------------ from arithmetic
VP_ENTRY(froma_a2b)
{
    int32_t a = vp_i32("a");
    ca_env e;
    SET_t r = call(e, ca_expr_funcs::A2B, a);
    vp_assert(e.count() == 0 && r.type == SET_t_enum::C_TYPE && r.access_c().size() == 32, "A2B length");
    VP_FORALL(k, 32)
        vp_assert(r.access_c()[k] == (((uint32_t)a >> (31 - k)) & 1 ? '1' : '0'), "A2B digits");
}
// OPT froma_a2x: shortloop=10
VP_ENTRY(froma_a2x)
{
    int32_t a = vp_i32("a");
    ca_env e;
    SET_t r = call(e, ca_expr_funcs::A2X, a);
    vp_assert(e.count() == 0 && r.type == SET_t_enum::C_TYPE && r.access_c().size() == 8, "A2X length");
    VP_FORALL(k, 8)
        vp_assert(r.access_c()[k] == HEX[((uint32_t)a >> (28 - 4 * k)) & 15], "A2X digits");
}
VP_ENTRY(froma_a2c)
{
    int32_t a = vp_i32("a");
    ca_env e;
    SET_t r = call(e, ca_expr_funcs::A2C, a);
    std::string x;
    for (int k = 3; k >= 0; --k)
        x += ebcdic_encoding::to_ascii((unsigned char)((uint32_t)a >> (8 * k)));
    vp_assert(e.count() == 0 && r.type == SET_t_enum::C_TYPE && r.access_c() == x, "A2C characters");
}
// OPT froma_a2d: shortloop=14 wall=60
VP_ENTRY(froma_a2d)
{
    int32_t a = vp_i32("a");
    ca_env e;
    SET_t r = call(e, ca_expr_funcs::A2D, a);
    vp_assert(e.count() == 0 && r.type == SET_t_enum::C_TYPE && is_dec_of(r.access_c(), a, true), "A2D digits");
}
// OPT froma_signed: shortloop=14 wall=60
VP_ENTRY(froma_signed)
{
    int32_t a = vp_i32("a");
    ca_env e;
    SET_t r = call(e, ca_expr_funcs::SIGNED, a);
    vp_assert(e.count() == 0 && r.type == SET_t_enum::C_TYPE && is_dec_of(r.access_c(), a, false), "SIGNED digits");
}
VP_ENTRY(froma_byte)
{
    int32_t a = vp_i32("a");
    ca_env e;
    SET_t r = call(e, ca_expr_funcs::BYTE, a);
    if (a < 0 || a > 255)
        vp_assert(bad(e), "BYTE rejects values outside one byte");
    else
        vp_assert(e.count() == 0 && r.access_c() == ebcdic_encoding::to_ascii((unsigned char)a), "BYTE character");
}
// ------------------------------------------------------------------------------------------ between strings
namespace {
bool over_limit(size_t n) { return n > 4064; }
std::string hexstr(const char* n) { return vp_string_of(n, "0123456789ABCDEFabcdef"); }
} // namespace
VP_ENTRY(str_x2b)
{
    std::string s = hexstr("s");
    ca_env e;
    SET_t r = call(e, ca_expr_funcs::X2B, s);
    if (over_limit(s.size() * 4))
        vp_assert(bad(e), "X2B diagnoses results over 4064 characters");
    else
    {
        vp_assert(e.count() == 0 && r.type == SET_t_enum::C_TYPE && r.access_c().size() == 4 * s.size(), "X2B length");
        const std::string& o = r.access_c();
        VP_FORALL(k, s.size())
        {
            int d = hex_digit(s[k]);
            vp_assert(o[4 * k] == (d & 8 ? '1' : '0') && o[4 * k + 1] == (d & 4 ? '1' : '0')
                    && o[4 * k + 2] == (d & 2 ? '1' : '0') && o[4 * k + 3] == (d & 1 ? '1' : '0'),
                "X2B digits");
        }
    }
}
VP_ENTRY(str_x2b_bad)
{
    std::string s = spoiled("0123456789ABCDEFabcdef", hex_digit, 16, false);
    ca_env e;
    call(e, ca_expr_funcs::X2B, s);
    vp_assert(bad(e), "X2B rejects");
}
// B2X / B2C: the value is right aligned: zero digits are added in front
VP_ENTRY(str_b2x)
{
    std::string s = vp_string_of("s", "01");
    ca_env e;
    SET_t r = call(e, ca_expr_funcs::B2X, s);
    size_t n = (s.size() + 3) / 4, pad = n * 4 - s.size();
    vp_assert(e.count() == 0 && r.type == SET_t_enum::C_TYPE && r.access_c().size() == n, "B2X length");
    VP_FORALL(k, n)
    {
        unsigned char d = 0;
        for (size_t j = 0; j < 4; ++j)
        {
            unsigned char bit = 4 * k + j < pad ? 0 : s[4 * k + j - pad] - '0';
            d = d * 2 + bit;
        }
        vp_assert(r.access_c()[k] == HEX[d], "B2X digits");
    }
}
VP_ENTRY(str_b2x_bad)
{
    std::string s = spoiled("01", hex_digit, 2, false);
    ca_env e;
    call(e, ca_expr_funcs::B2X, s);
    vp_assert(bad(e), "B2X rejects");
}
struct gb2c
{
    size_t pos;
    const std::string* s;
    std::string out;
    size_t n() const { return (s->size() + 7) / 8; }
    void step()
    {
        size_t pad = n() * 8 - s->size();
        int d = 0;
        for (size_t j = 0; j < 8; ++j)
            d = d * 2 + (8 * pos + j >= pad && (*s)[8 * pos + j - pad] == '1');
        out += ebcdic_encoding::to_ascii((unsigned char)d);
        ++pos;
    }
    bool done() const { return pos >= n(); }
};
// OPT str_b2c: wall=90
VP_ENTRY(str_b2c)
{
    std::string s = vp_string_of("s", "01");
    gb2c g { 0, &s, "" };
    vp_ghost(g);
    ca_env e;
    SET_t r = call(e, ca_expr_funcs::B2C, s);
    vp_finish(g);
    vp_assert(e.count() == 0 && r.type == SET_t_enum::C_TYPE && r.access_c() == g.out, "B2C characters");
}
// OPT str_b2c_bad: wall=90
VP_ENTRY(str_b2c_bad)
{
    std::string s = spoiled("01", hex_digit, 2, false);
    ca_env e;
    call(e, ca_expr_funcs::B2C, s);
    vp_assert(bad(e), "B2C rejects");
}
struct gx2c
{
    size_t pos;
    const std::string* s;
    std::string out;
    size_t n() const { return (s->size() + 1) / 2; }
    void step()
    {
        size_t odd = s->size() & 1;
        int hi = odd && pos == 0 ? 0 : hex_digit((*s)[2 * pos - odd]), lo = hex_digit((*s)[2 * pos + 1 - odd]);
        out += ebcdic_encoding::to_ascii((unsigned char)(hi * 16 + lo));
        ++pos;
    }
    bool done() const { return pos >= n(); }
};
// OPT str_x2c: wall=90
VP_ENTRY(str_x2c)
{
    std::string s = hexstr("s");
    gx2c g { 0, &s, "" };
    vp_ghost(g);
    ca_env e;
    SET_t r = call(e, ca_expr_funcs::X2C, s);
    vp_finish(g);
    vp_assert(e.count() == 0 && r.type == SET_t_enum::C_TYPE && r.access_c() == g.out, "X2C characters");
}
// OPT str_x2c_bad: wall=90
VP_ENTRY(str_x2c_bad)
{
    std::string s = spoiled("0123456789ABCDEFabcdef", hex_digit, 16, false);
    ca_env e;
    call(e, ca_expr_funcs::X2C, s);
    vp_assert(bad(e), "X2C rejects");
}
// character to digits: every single-byte character becomes the digits of its EBCDIC code
namespace {
const char* const PRINT = " !\"#$%&'()*+,-./0123456789:;<=>?@ABCXYZ[\\]^_`abcxyz{|}~";
}
VP_ENTRY(str_c2b)
{
    std::string s = vp_string_of("s", PRINT);
    ca_env e;
    SET_t r = call(e, ca_expr_funcs::C2B, s);
    if (over_limit(s.size() * 8))
        vp_assert(bad(e), "C2B diagnoses results over 4064 characters");
    else
    {
        vp_assert(e.count() == 0 && r.type == SET_t_enum::C_TYPE && r.access_c().size() == 8 * s.size(), "C2B length");
        VP_FORALL(k, s.size())
        for (size_t j = 0; j < 8; ++j)
            vp_assert(r.access_c()[8 * k + j] == (ebcdic_encoding::a2e[(unsigned char)s[k]] >> (7 - j) & 1 ? '1' : '0'), "C2B digits");
    }
}
VP_ENTRY(str_c2x)
{
    std::string s = vp_string_of("s", PRINT);
    ca_env e;
    SET_t r = call(e, ca_expr_funcs::C2X, s);
    if (over_limit(s.size() * 2))
        vp_assert(bad(e), "C2X diagnoses results over 4064 characters");
    else
    {
        vp_assert(e.count() == 0 && r.type == SET_t_enum::C_TYPE && r.access_c().size() == 2 * s.size(), "C2X length");
        VP_FORALL(k, s.size())
        {
            unsigned v = ebcdic_encoding::a2e[(unsigned char)s[k]];
            vp_assert(r.access_c()[2 * k] == HEX[v >> 4] && r.access_c()[2 * k + 1] == HEX[v & 15], "C2X digits");
        }
    }
}
// any bytes at all: the scan stays inside the string
VP_ENTRY(str_c2b_any)
{
    std::string s = vp_string("s");
    ca_env e;
    SET_t r = call(e, ca_expr_funcs::C2B, s);
    vp_assert(e.count() == 0 || bad(e), "C2B terminates");
}
VP_ENTRY(str_c2x_any)
{
    std::string s = vp_string("s");
    ca_env e;
    SET_t r = call(e, ca_expr_funcs::C2X, s);
    vp_assert(e.count() == 0 || bad(e), "C2X terminates");
}
VP_ENTRY(str_c2a_any)
{
    std::string s = vp_string("s");
    ca_env e;
    SET_t r = call(e, ca_expr_funcs::C2A, s);
    vp_assert(s.size() <= 4 ? e.count() == 0 && r.type == SET_t_enum::A_TYPE : bad(e), "C2A terminates");
}
// two-step conversions agree with the composition of their steps
namespace {
void composed(ca_expr_funcs f, ca_expr_funcs first, ca_expr_funcs second, const std::string& s)
{
    ca_env e, e1, e2;
    SET_t a = call(e1, first, s);
    SET_t r = call(e, f, s);
    if (e1.count())
        vp_assert(bad(e), "invalid argument is diagnosed");
    else
        vp_assert(e.count() == 0 && r.type == SET_t_enum::C_TYPE && r.access_c() == call(e2, second, a).access_c(), "composition");
}
} // namespace
VP_ENTRY(comp_b2d) { composed(ca_expr_funcs::B2D, ca_expr_funcs::B2A, ca_expr_funcs::A2D, vp_string("s", "01")); }
VP_ENTRY(comp_x2d) { composed(ca_expr_funcs::X2D, ca_expr_funcs::X2A, ca_expr_funcs::A2D, vp_string("s", "0123456789ABCDEFabcdef")); }
// OPT comp_c2d: shortloop=7 wall=60
VP_ENTRY(comp_c2d) { composed(ca_expr_funcs::C2D, ca_expr_funcs::C2A, ca_expr_funcs::A2D, vp_string("s", PRINT)); }
VP_ENTRY(comp_d2b)
{
    std::string s = vp_string("s", "0123456789+-");
    vp_assume(!s.empty());
    composed(ca_expr_funcs::D2B, ca_expr_funcs::D2A, ca_expr_funcs::A2B, s);
}
VP_ENTRY(comp_d2c)
{
    std::string s = vp_string("s", "0123456789+-");
    vp_assume(!s.empty());
    composed(ca_expr_funcs::D2C, ca_expr_funcs::D2A, ca_expr_funcs::A2C, s);
}
// OPT comp_d2x: shortloop=10
// OPT comp_d2x: wall=90
VP_ENTRY(comp_d2x)
{
    std::string s = vp_string("s", "0123456789+-");
    vp_assume(!s.empty());
    composed(ca_expr_funcs::D2X, ca_expr_funcs::D2A, ca_expr_funcs::A2X, s);
}
// ------------------------------------------------------------------------------------------ self-defining terms
namespace {
void sdt(const char* types, ca_expr_funcs f, const std::string& v)
{
    vp_assume(!v.empty());
    char t = types[vp_in<int>("case", 0, 1)];
    ca_env e;
    diagnostic_adder add(&e.ctx, range());
    int32_t r = ca_constant::self_defining_term(std::string(1, t) + "'" + v + "'", add);
    ca_env e1;
    SET_t x = call(e1, f, v);
    vp_assert(e.count() == e1.count(), "self-defining term is diagnosed like the conversion");
    if (!e1.count())
        vp_assert(r == x.access_a(), "self-defining term has the value of the conversion");
    auto o = ca_constant::try_self_defining_term(std::string(1, t) + "'" + v + "'");
    vp_assert(o.has_value() == (e1.count() == 0) && (!o || *o == r), "probing agrees");
}
} // namespace
VP_ENTRY(sdt_b) { sdt("Bb", ca_expr_funcs::B2A, vp_string("v", "01")); }
VP_ENTRY(sdt_x) { sdt("Xx", ca_expr_funcs::X2A, vp_string("v", "0123456789ABCDEFabcdef")); }
// OPT sdt_c: shortloop=7
VP_ENTRY(sdt_c)
{
    sdt("Cc", ca_expr_funcs::C2A, vp_string_of("v", PRINT));
}
VP_ENTRY(sdt_d)
{
    std::string v = vp_string("v", "0123456789");
    vp_assume(!v.empty() && !(v.size() >= 3 && v[1] == '\'' && v.back() == '\''));
    ca_env e, e1;
    diagnostic_adder add(&e.ctx, range());
    int32_t r = ca_constant::self_defining_term(v, add);
    SET_t x = call(e1, ca_expr_funcs::D2A, v);
    vp_assert(e.count() == e1.count() && (e1.count() || r == x.access_a()), "decimal self-defining term");
}
VP_ENTRY(sdt_other)
{
    std::string v = vp_string("v");
    char t = (char)vp_u8("t");
    vp_assume(!(t == 'B' || t == 'b' || t == 'C' || t == 'c' || t == 'D' || t == 'd' || t == 'X' || t == 'x') || v.empty());
    ca_env e;
    diagnostic_adder add(&e.ctx, range());
    ca_constant::self_defining_term(std::string(1, t) + "'" + v + "'", add);
    vp_assert(e.count() == 1 && e.code() == "CE015", "unknown type or empty value is diagnosed");
}
