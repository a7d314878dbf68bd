// Contracts of the character encodings: EBCDIC tables, UTF-8 <-> EBCDIC.
// SRC: parser_library/src/ebcdic_encoding.cpp
// NOTE: the EBCDIC image of a string is specified for well-formed UTF-8 (documents are sanitised, see P06); any other bytes only for memory safety
#include "vp.h"
#include "ebcdic_encoding.h"
using namespace hlasm_plugin::parser_library;
using E = ebcdic_encoding;
// ---------------------------------------------------------------- tables
VP_ENTRY(enc_inverse)
{
    uint8_t c = vp_u8("c");
    vp_assert(E::e2a[E::a2e[c]] == c && E::a2e[E::e2a[c]] == c, "the translation tables are inverse to each other");
    vp_assert(E::to_ebcdic(c) == E::a2e[c], "to_ebcdic uses the table");
}
// characters of the HLASM character set and the special characters of EBCDIC
VP_ENTRY(enc_known)
{
    uint8_t c = vp_u8("c");
    unsigned char r = E::to_ebcdic(c);
    if (c >= 'A' && c <= 'I')
        vp_assert(r == 0xC1 + (c - 'A'), "A-I");
    if (c >= 'J' && c <= 'R')
        vp_assert(r == 0xD1 + (c - 'J'), "J-R");
    if (c >= 'S' && c <= 'Z')
        vp_assert(r == 0xE2 + (c - 'S'), "S-Z");
    if (c >= 'a' && c <= 'i')
        vp_assert(r == 0x81 + (c - 'a'), "a-i");
    if (c >= 'j' && c <= 'r')
        vp_assert(r == 0x91 + (c - 'j'), "j-r");
    if (c >= 's' && c <= 'z')
        vp_assert(r == 0xA2 + (c - 's'), "s-z");
    if (c >= '0' && c <= '9')
        vp_assert(r == 0xF0 + (c - '0'), "digits");
    static const char sp[] = " .<(+&$*);-/,%_>?:#@'=\"";
    static const unsigned char ex[] = { 0x40, 0x4B, 0x4C, 0x4D, 0x4E, 0x50, 0x5B, 0x5C, 0x5D, 0x5E, 0x60, 0x61, 0x6B, 0x6C, 0x6D, 0x6E, 0x6F, 0x7A, 0x7B, 0x7C, 0x7D, 0x7E, 0x7F };
    for (size_t i = 0; i < sizeof ex; ++i)
        if (c == (unsigned char)sp[i])
            vp_assert(r == ex[i], "special character");
    vp_assert(c != 0 || r == 0, "NUL");
    vp_assert(c != E::SUB || r == 0x3F, "SUB");
}
// ---------------------------------------------------------------- one character
VP_ENTRY(enc_char_out)
{
    uint8_t c = vp_u8("c");
    std::string s = E::to_ascii(c);
    unsigned v = E::e2a[c];
    if (v < 0x80)
        vp_assert(s.size() == 1 && (unsigned char)s[0] == v, "ASCII character");
    else
        vp_assert(s.size() == 2 && (unsigned char)s[0] == (0xC0 | v >> 6) && (unsigned char)s[1] == (0x80 | (v & 0x3F)), "well-formed UTF-8 of two bytes");
    const char* p = s.c_str();
    unsigned char back = E::to_ebcdic(E::to_pseudoascii(p));
    vp_assert(back == c && p == s.c_str() + s.size() - 1, "every EBCDIC character survives the round trip");
}
// ---------------------------------------------------------------- strings
namespace {
unsigned char at(const std::string& s, size_t i) { return (unsigned char)s[i]; }
bool cont(const std::string& s, size_t i) { return i < s.size() && (at(s, i) & 0xC0) == 0x80; }
size_t wf(const std::string& s, size_t i)
{
    unsigned char c = at(s, i);
    if (c < 0x80)
        return 1;
    if (c < 0xC2 || c > 0xF4 || !cont(s, i + 1))
        return 0;
    if (c < 0xE0)
        return 2;
    unsigned char d = at(s, i + 1);
    if ((c == 0xE0 && d < 0xA0) || (c == 0xED && d > 0x9F) || (c == 0xF0 && d < 0x90) || (c == 0xF4 && d > 0x8F))
        return 0;
    if (!cont(s, i + 2))
        return 0;
    if (c < 0xF0)
        return 3;
    return cont(s, i + 3) ? 4 : 0;
}
struct gebc
{
    size_t pos;
    const std::string* s;
    std::string out;
    void step()
    {
        size_t n = wf(*s, pos);
        vp_assume(n > 0); // well-formed text
        unsigned char c = at(*s, pos);
        if (n == 1)
            out.push_back((char)E::a2e[c]);
        else if (n == 2 && c <= 0xC3)
            out.push_back((char)E::a2e[(c & 3) << 6 | (at(*s, pos + 1) & 0x3F)]);
        else
            out.push_back(0x3F);
        pos += n;
    }
    bool done() const { return pos >= s->size(); }
};
bool exec() { return !vp_symbolic() || vp_unrolling(); }
std::string text_of(const char* n)
{
    std::string s = vp_string(n, "aZ0 234");
    if (vp_symbolic())
        return s;
    std::string r;
    for (char c : s)
        r += c == '2' ? "\xc3\xa9" : c == '3' ? "\xe2\x82\xac" : c == '4' ? "\xf0\x9f\x98\x80" : std::string(1, c & 0x7F);
    return r;
}
} // namespace
VP_ENTRY(enc_string)
{
    std::string s = text_of("s");
    if (exec())
        for (size_t i = 0; i < s.size();)
        {
            size_t n = wf(s, i);
            vp_assume(n > 0);
            i += n;
        }
    gebc g { 0, &s, "" };
    vp_ghost(g);
    std::string r = E::to_ebcdic(s);
    vp_finish(g);
    vp_assert(r == g.out, "one EBCDIC byte per character, SUB for characters without one");
}
VP_ENTRY(enc_string_any)
{
    std::string s = vp_string("s", "a\xc3\xa9\xe2\x82\xac\xf0\x9f\x98\x80");
    std::string r = E::to_ebcdic(s);
    vp_assert(true, "the conversion ends");
}
