// Contracts of document text: UTF-8 sanitisation, line index, UTF-16 positions, incremental edits.
// SRC: parser_library/src/workspaces/file_impl.cpp parser_library/src/lsp/text_data_ref_t.cpp
// NOTE: positions and edits are specified for texts that are well-formed UTF-8 (did_open/did_change receive decoded JSON, files are sanitised)
#include "vp.h"
#include "workspaces/file_impl.h"
#include "lsp/text_data_ref_t.h"
using namespace hlasm_plugin::parser_library;
using workspaces::file_impl;
namespace hlasm_plugin::parser_library::workspaces {
size_t find_newlines(const std::string& text, std::vector<size_t>& lines);
}
namespace {
unsigned char at(const std::string& s, size_t i) { return (unsigned char)s[i]; }
bool cont(const std::string& s, size_t i) { return i < s.size() && (at(s, i) & 0xC0) == 0x80; }
// length of the well-formed UTF-8 character at i (Unicode table 3-7), 0 if there is none
size_t wf(const std::string& s, size_t i)
{
    unsigned char c = at(s, i);
    if (c < 0x80)
        return 1;
    if (c < 0xC2 || c > 0xF4 || !cont(s, i + 1))
        return 0;
    if (c < 0xE0)
        return 2;
    unsigned char d = at(s, i + 1);
    if ((c == 0xE0 && d < 0xA0) || (c == 0xED && d > 0x9F) || (c == 0xF0 && d < 0x90) || (c == 0xF4 && d > 0x8F))
        return 0;
    if (!cont(s, i + 2))
        return 0;
    if (c < 0xF0)
        return 3;
    return cont(s, i + 3) ? 4 : 0;
}
struct gutf
{
    size_t pos;
    const std::string* s;
    std::string out;
    void step()
    {
        size_t n = wf(*s, pos);
        if (n == 0)
        {
            out.push_back((char)0xEF);
            out.push_back((char)0xBF);
            out.push_back((char)0xBD);
            pos += 1;
            return;
        }
        for (size_t k = 0; k < n; ++k)
            out.push_back((*s)[pos + k]);
        pos += n;
    }
    bool done() const { return pos >= s->size(); }
};
} // namespace
// ---------------------------------------------------------------- P06
// well-formed characters are kept, every other byte becomes U+FFFD
VP_ENTRY(utf8_replace)
{
    std::string s = vp_string("s", "a\xc3\xa9\xe2\x82\xac\xf0\x9f\x98\x80\xed\xa0\xc0");
    gutf g { 0, &s, "" };
    vp_ghost(g);
    std::string r = file_impl::replace_non_utf8_chars(s);
    vp_finish(g);
    vp_assert(r == g.out, "valid characters kept, invalid bytes replaced");
}
// ---------------------------------------------------------------- lines
namespace {
struct glines
{
    size_t pos;
    const std::string* s;
    std::vector<size_t> out;
    void step()
    {
        char c = (*s)[pos];
        // a line separator ends at pos: LF (possibly of CR LF), or CR not followed by LF
        if (c == '\n' || (c == '\r' && !(pos + 1 < s->size() && (*s)[pos + 1] == '\n')))
            out.push_back(pos + 1);
        ++pos;
    }
    bool done() const { return pos >= s->size(); }
};
} // namespace
VP_ENTRY(lines_index)
{
    std::string s = vp_string("s", "\r\na");
    glines g { 0, &s, {} };
    g.out.push_back(0);
    vp_ghost(g);
    std::vector<size_t> r = file_impl::create_line_indices(s);
    vp_finish(g);
    vp_assert(r == g.out, "a line begins after every CR, LF or CR LF");
}
VP_ENTRY(lines_open)
{
    std::string s = vp_string("s", "\r\na");
    glines g { 0, &s, {} };
    g.out.push_back(0);
    file_impl f("f");
    vp_ghost(g);
    f.did_open(s, 7);
    vp_finish(g);
    vp_assert(f.get_text() == s && f.get_version() == 7 && f.get_lsp_editing(), "opened text is kept");
    vp_assert(f.lines_ind_ == g.out, "line index of the opened text");
}
VP_ENTRY(lines_change)
{
    std::string s = vp_string("s", "\r\na");
    file_impl f("f");
    f.did_open("x\n", 7);
    glines g { 0, &s, {} };
    g.out.push_back(0);
    vp_ghost(g);
    f.did_change(s);
    vp_finish(g);
    vp_assert(f.get_text() == s && f.get_version() == 8 && f.get_lsp_editing(), "replaced text is kept");
    vp_assert(f.lines_ind_ == g.out, "line index of the replaced text");
}
// ---------------------------------------------------------------- positions
// OPT pos_line: use=create_line_indices:vpc_lines
// OPT pos_before: use=create_line_indices:vpc_lines;index_from_position:vpc_index
// OPT pos_beginning: use=create_line_indices:vpc_lines;index_from_position:vpc_index
// OPT pos_range: use=create_line_indices:vpc_lines;index_from_position:vpc_index
// OPT edit_text: use=index_from_position:vpc_index;find_newlines:vpc_newlines
namespace {
bool exec() { return !vp_symbolic() || vp_unrolling(); }
void assume_wf(const std::string& s)
{
    // in a proof the ghost automaton makes this assumption character by character
    if (exec())
        for (size_t i = 0; i < s.size();)
        {
            size_t n = wf(s, i);
            vp_assume(n > 0);
            i += n;
        }
}
// an arbitrary number, executed contracts prefer small ones
size_t small(const char* n)
{
    size_t r = vp_u64(n);
    return vp_symbolic() || r > 255 ? r : r % 8;
}
// arbitrary text; executed contracts draw the digits 2, 3 and 4 for characters of that many bytes
std::string text_of(const char* n)
{
    std::string s = vp_string(n, "\r\na234");
    if (vp_symbolic())
        return s;
    std::string r;
    for (char c : s)
    {
        if (c == '2')
            r += "\xc3\xa9";
        else if (c == '3')
            r += "\xe2\x82\xac";
        else if (c == '4')
            r += "\xf0\x9f\x98\x80";
        else
            r += c;
    }
    return r;
}
// beginnings of lines as contract lines_index provides them, for the lines of interest
void assume_line(const std::string& s, const std::vector<size_t>& l, size_t line)
{
    vp_assume(l.size() >= 1 && l[0] == 0);
    if (line >= l.size())
        return;
    vp_assume(l[line] <= s.size());
    if (line + 1 < l.size())
    {
        size_t nx = l[line + 1];
        vp_assume(l[line] < nx && nx <= s.size() && (s[nx - 1] == '\n' || s[nx - 1] == '\r'));
    }
}
size_t content_end(const std::string& s, const std::vector<size_t>& l, size_t line)
{
    if (line + 1 >= l.size())
        return s.size();
    size_t e = l[line + 1] - 1;
    if (s[e] == '\n' && e > l[line] && s[e - 1] == '\r')
        --e;
    return e;
}
// position of the character denoted by a UTF-16 column
struct gpos
{
    size_t pos;
    const std::string* s;
    size_t units, col, end;
    void step()
    {
        size_t n = wf(*s, pos);
        vp_assume(n > 0 && pos + n <= end); // well-formed text; a separator is a character of its own
        units += n == 4 ? 2 : 1;
        pos += n;
    }
    bool done() const { return units >= col || pos >= end; }
};
size_t g_line;
} // namespace
extern "C" size_t vpc_index(const std::string& text, const std::vector<size_t>& l, position p)
{
    if (p.line >= l.size())
        return text.size();
    size_t r = vp_uf2("index", p.line, p.column);
    vp_assume(r <= text.size() && r >= l[p.line]);
    return r;
}
extern "C" std::vector<size_t> vpc_lines(const std::string& text)
{
    std::vector<size_t> r;
    vp_make_vec(&r, "lines");
    assume_line(text, r, g_line);
    return r;
}
// contract of find_newlines (established by lines_index): appends the beginnings of the lines of its text - here an
// arbitrary list standing for them, provided the text is the expected one
namespace {
const std::string* g_exp;
std::vector<size_t>* g_marker;
} // namespace
extern "C" size_t vpc_newlines(const std::string& text, std::vector<size_t>& lines)
{
    vp_assert(text == *g_exp, "line index is built from the edited text");
    lines.insert(lines.end(), g_marker->begin(), g_marker->end());
    return g_marker->size();
}
VP_ENTRY(pos_index)
{
    std::string s = text_of("s");
    std::vector<size_t> l;
    if (exec())
        l = file_impl::create_line_indices(s);
    else
        vp_make_vec(&l, "lines");
    assume_wf(s);
    size_t line = small("line"), col = small("col");
    assume_line(s, l, line);
    vp_assume(line < l.size());
    gpos g { l[line], &s, 0, col, content_end(s, l, line) };
    vp_ghost(g);
    size_t r = 0;
    bool thrown = false;
    try
    {
        r = file_impl::index_from_position(s, l, position(line, col));
    }
    catch (...)
    {
        thrown = true;
    }
    vp_finish(g);
    vp_assert(!thrown, "no exception for well-formed text");
    vp_assert(r == g.pos, "UTF-16 column of the line");
}
VP_ENTRY(pos_past_end)
{
    std::string s = text_of("s");
    std::vector<size_t> l;
    if (exec())
        l = file_impl::create_line_indices(s);
    else
        vp_make_vec(&l, "lines");
    size_t line = small("line"), col = small("col");
    vp_assume(line >= l.size());
    vp_assert(file_impl::index_from_position(s, l, position(line, col)) == s.size(), "line past the end is the end of the text");
}
// lookups by position on the text shown in the editor
namespace {
bool same(std::string_view v, const std::string& s, size_t b, size_t e) { return v.size() == e - b && (v.empty() || v.data() == s.data() + b); }
} // namespace
VP_ENTRY(pos_line)
{
    std::string s = text_of("s");
    size_t line = small("line");
    g_line = line;
    lsp::text_data_ref_t t(s);
    const auto& l = t.line_indices;
    std::string_view v = t.get_line(line);
    vp_assert(t.get_number_of_lines() == l.size(), "number of lines");
    if (line >= l.size())
        vp_assert(v.empty(), "no such line");
    else
        vp_assert(same(v, s, l[line], line + 1 < l.size() ? l[line + 1] : s.size()), "line with its separator");
}
VP_ENTRY(pos_beginning)
{
    std::string s = text_of("s");
    assume_wf(s);
    size_t line = small("line"), col = small("col");
    g_line = line;
    lsp::text_data_ref_t t(s);
    const auto& l = t.line_indices;
    std::string_view v = t.get_line_beginning(position(line, col));
    if (line >= l.size())
        vp_assert(v.empty(), "no such line");
    else
        vp_assert(same(v, s, l[line], file_impl::index_from_position(s, l, position(line, col))), "line up to the position");
}
VP_ENTRY(pos_before)
{
    std::string s = text_of("s");
    assume_wf(s);
    size_t line = small("line"), col = small("col");
    g_line = line;
    lsp::text_data_ref_t t(s);
    const auto& l = t.line_indices;
    char c = t.get_character_before(position(line, col));
    if (col == 0)
        vp_assert(c == '\0', "nothing before the first column");
    else
    {
        size_t i = file_impl::index_from_position(s, l, position(line, col - 1));
        vp_assert(c == (i < s.size() ? s[i] : '\0'), "character before the position");
    }
}
VP_ENTRY(pos_range)
{
    std::string s = text_of("s");
    assume_wf(s);
    size_t line = small("line"), col = small("col"), line2 = small("line2"), col2 = small("col2");
    g_line = line;
    lsp::text_data_ref_t t(s);
    const auto& l = t.line_indices;
    size_t b = file_impl::index_from_position(s, l, position(line, col));
    if (!exec())
        assume_line(s, l, line2);
    size_t e = file_impl::index_from_position(s, l, position(line2, col2));
    vp_assume(line < line2 || (line == line2 && col <= col2));
    vp_assume(exec() || b <= e); // offsets are monotone in the position
    std::string_view v = t.get_range_content(range(position(line, col), position(line2, col2)));
    vp_assert(b <= e, "offsets are ordered like positions");
    vp_assert(same(v, s, b, e), "content of the range");
}
// ---------------------------------------------------------------- edits
namespace {
struct edit
{
    std::string s, t;
    file_impl f;
    range r;
    size_t b, e;
    std::string exp;
    edit()
        : s(text_of("s"))
        , t(text_of("t"))
        , f("f")
    {
        assume_wf(s);
        if (exec())
            f.did_open(s, 7);
        else
        {
            f.text_ = s;
            f.version_ = 7;
            f.up_to_date_ = true;
            f.editing_ = true;
            vp_make_vec(&f.lines_ind_, "lines");
        }
        size_t l1 = small("line"), c1 = small("col"), l2 = small("line2"), c2 = small("col2");
        vp_assume(l1 < l2 || (l1 == l2 && c1 <= c2));
        r = range(position(l1, c1), position(l2, c2));
        assume_line(s, f.lines_ind_, l1);
        assume_line(s, f.lines_ind_, l2);
        b = file_impl::index_from_position(s, f.lines_ind_, r.start);
        e = file_impl::index_from_position(s, f.lines_ind_, r.end);
        vp_assume(exec() || b <= e); // offsets are monotone in the position (contract pos_range, executed)
        exp = s.substr(0, b) + t + s.substr(e);
    }
};
} // namespace
VP_ENTRY(edit_text)
{
    edit d;
    std::vector<size_t> m, rest;
    m.push_back(0);
    if (exec())
        m = file_impl::create_line_indices(d.exp);
    else
    {
        vp_make_vec(&rest, "rest");
        g_exp = &d.exp;
        g_marker = &rest;
        m.insert(m.end(), rest.begin(), rest.end());
    }
    d.f.did_change(d.r, d.t);
    vp_assert(d.f.get_text() == d.exp, "edited range replaced, the rest kept");
    vp_assert(d.f.get_version() == 8 && d.f.get_lsp_editing() && !d.f.update_and_get_bad(), "version advances by one");
    vp_assert(d.f.lines_ind_ == m, "line index of the edited text");
}
// two edits in a row (executed only): the second one sees the text and lines of the first
// OPT edit_twice: mode=native secs=8
VP_ENTRY(edit_twice)
{
    edit d;
    d.f.did_change(d.r, d.t);
    std::string s2 = d.exp, t2 = text_of("t2");
    assume_wf(s2);
    std::vector<size_t> l = file_impl::create_line_indices(s2);
    size_t l1 = vp_in<size_t>("line3", 0, 4), c1 = vp_in<size_t>("col3", 0, 4), l2 = vp_in<size_t>("line4", 0, 4), c2 = vp_in<size_t>("col4", 0, 4);
    vp_assume(l1 < l2 || (l1 == l2 && c1 <= c2));
    size_t b = file_impl::index_from_position(s2, l, position(l1, c1)), e = file_impl::index_from_position(s2, l, position(l2, c2));
    d.f.did_change(range(position(l1, c1), position(l2, c2)), t2);
    vp_assert(d.f.get_text() == s2.substr(0, b) + t2 + s2.substr(e), "second edit applies to the result of the first");
    vp_assert(d.f.get_version() == 9, "version advances per edit");
}
// closing keeps the text; a file opened in the editor is never reloaded from disk
VP_ENTRY(edit_close)
{
    std::string s = vp_string("s");
    file_impl f("f");
    f.text_ = s;
    f.up_to_date_ = true;
    f.editing_ = true;
    vp_assert(!f.update_and_get_bad() && f.get_text() == s, "edited file is not reloaded");
    f.did_close();
    vp_assert(!f.get_lsp_editing() && f.get_text_ref() == s, "close ends editing and keeps the text");
}
