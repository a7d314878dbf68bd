// Contracts of the conditional-assembly string operations: DCLEN DCVAL DEQUOTE DOUBLE FIND INDEX UPPER LOWER,
// substring notation, duplication, concatenation, and the 4064 character limit.
// SRC: parser_library/src/expressions/conditional_assembly/terms/ca_function.cpp parser_library/src/expressions/conditional_assembly/terms/ca_constant.cpp
// SRC: parser_library/src/expressions/conditional_assembly/terms/ca_string.cpp parser_library/src/expressions/conditional_assembly/ca_expression.cpp
// SRC: parser_library/src/expressions/conditional_assembly/ca_operator_binary.cpp
// SRC: parser_library/src/expressions/conditional_assembly/ca_expr_policy.cpp parser_library/src/context/common_types.cpp
// SRC: parser_library/src/diagnostic.cpp parser_library/src/ebcdic_encoding.cpp parser_library/src/lexing/lexer.cpp
// SRC: parser_library/src/diagnostic_adder.cpp parser_library/src/semantics/concatenation.cpp parser_library/src/semantics/concatenation_term.cpp
// IRINC: include/ir/vp_sstream.h
#include "ca_env.h"
#include "expressions/conditional_assembly/ca_expr_policy.h"
#include "expressions/conditional_assembly/ca_operator_binary.h"
#include "expressions/conditional_assembly/terms/ca_constant.h"
#include "expressions/conditional_assembly/terms/ca_function.h"
#include "expressions/conditional_assembly/terms/ca_string.h"
#include "semantics/concatenation_term.h"
using namespace hlasm_plugin::parser_library;
using namespace hlasm_plugin::parser_library::expressions;
using context::SET_t;
using context::SET_t_enum;
namespace {
const size_t LIMIT = 4064;
SET_t call(ca_env& e, ca_expr_funcs f, SET_t p, ca_expr_ptr dupl = nullptr)
{
    std::vector<ca_expr_ptr> ps;
    ps.push_back(mk(std::move(p)));
    ca_function fn(nullptr, f, std::move(ps), std::move(dupl), range());
    return fn.evaluate(e.ctx);
}
SET_t call2(ca_env& e, ca_expr_funcs f, SET_t p, SET_t q)
{
    std::vector<ca_expr_ptr> ps;
    ps.push_back(mk(std::move(p)));
    ps.push_back(mk(std::move(q)));
    ca_function fn(nullptr, f, std::move(ps), nullptr, range());
    return fn.evaluate(e.ctx);
}
bool bad(ca_env& e) { return e.count() == 1 && e.code() == "CE007"; }
bool special(char c) { return c == '\'' || c == '&'; }
// doubled quotes and ampersands count as one character; pairs are taken from the left
struct gdc
{
    size_t pos;
    const std::string* s;
    std::string out;
    void step()
    {
        char c = (*s)[pos];
        if (special(c) && pos + 1 < s->size() && (*s)[pos + 1] == c)
            ++pos;
        out.push_back(c);
        ++pos;
    }
    bool done() const { return pos >= s->size(); }
};
struct gdcn
{
    size_t pos;
    const std::string* s;
    int32_t n;
    void step()
    {
        char c = (*s)[pos];
        if (special(c) && pos + 1 < s->size() && (*s)[pos + 1] == c)
            ++pos;
        ++n;
        ++pos;
    }
    bool done() const { return pos >= s->size(); }
};
struct gdbl
{
    size_t pos;
    const std::string* s;
    std::string out;
    void step()
    {
        char c = (*s)[pos];
        out.push_back(c);
        if (special(c))
            out.push_back(c);
        ++pos;
    }
    bool done() const { return pos >= s->size(); }
};
} // namespace
VP_ENTRY(str_dclen)
{
    std::string s = vp_string("s", "''&&a");
    vp_assume(s.size() < 100000);
    gdcn g { 0, &s, 0 };
    vp_ghost(g);
    ca_env e;
    SET_t r = call(e, ca_expr_funcs::DCLEN, s);
    vp_finish(g);
    vp_assert(e.count() == 0 && r.type == SET_t_enum::A_TYPE && r.access_a() == g.n, "DCLEN counts pairs once");
}
VP_ENTRY(str_dcval)
{
    std::string s = vp_string("s", "''&&a");
    gdc g { 0, &s, "" };
    vp_ghost(g);
    ca_env e;
    SET_t r = call(e, ca_expr_funcs::DCVAL, s);
    vp_finish(g);
    vp_assert(e.count() == 0 && r.type == SET_t_enum::C_TYPE && r.access_c() == g.out, "DCVAL collapses pairs");
}
VP_ENTRY(str_double)
{
    std::string s = vp_string("s", "''&&a");
    gdbl g { 0, &s, "" };
    vp_ghost(g);
    ca_env e;
    SET_t r = call(e, ca_expr_funcs::DOUBLE, s);
    vp_finish(g);
    if (g.out.size() > LIMIT)
        vp_assert(bad(e), "DOUBLE diagnoses results over 4064 characters");
    else
        vp_assert(e.count() == 0 && r.type == SET_t_enum::C_TYPE && r.access_c() == g.out, "DOUBLE doubles");
}
VP_ENTRY(str_dequote)
{
    std::string s = vp_string("s", "''a");
    size_t b = !s.empty() && s[0] == '\'' ? 1 : 0;
    size_t n = s.size() > b && s[s.size() - 1] == '\'' ? s.size() - 1 : s.size();
    ca_env e;
    SET_t r = call(e, ca_expr_funcs::DEQUOTE, s);
    vp_assert(e.count() == 0 && r.type == SET_t_enum::C_TYPE && r.access_c().size() == n - b, "DEQUOTE length");
    VP_FORALL(k, n - b)
    vp_assert(r.access_c()[k] == s[b + k], "DEQUOTE keeps the rest");
}
VP_ENTRY(str_upper)
{
    std::string s = vp_string("s");
    ca_env e;
    SET_t r = call(e, ca_expr_funcs::UPPER, s);
    vp_assert(e.count() == 0 && r.type == SET_t_enum::C_TYPE && r.access_c().size() == s.size(), "UPPER length");
    VP_FORALL(k, s.size())
    vp_assert(r.access_c()[k] == (s[k] >= 'a' && s[k] <= 'z' ? s[k] - 'a' + 'A' : s[k]), "UPPER characters");
}
VP_ENTRY(str_lower)
{
    std::string s = vp_string("s");
    ca_env e;
    SET_t r = call(e, ca_expr_funcs::LOWER, s);
    vp_assert(e.count() == 0 && r.type == SET_t_enum::C_TYPE && r.access_c().size() == s.size(), "LOWER length");
    VP_FORALL(k, s.size())
    vp_assert(r.access_c()[k] == (s[k] >= 'A' && s[k] <= 'Z' ? s[k] - 'A' + 'a' : s[k]), "LOWER characters");
}
// ------------------------------------------------------------------------------------------ search
namespace {
SET_t srch(int form, bool find, const std::string& a, const std::string& b, ca_env& e)
{
    if (form)
        return call2(e, find ? ca_expr_funcs::FIND : ca_expr_funcs::INDEX, a, b);
    ca_function_binary_operator o(mk(a), mk(b), find ? ca_expr_ops::FIND : ca_expr_ops::INDEX, SET_t_enum::A_TYPE, range());
    return o.evaluate(e.ctx);
}
} // namespace
// FIND: first position of any character of the second operand
VP_ENTRY(str_find)
{
    std::string a = vp_string("a", "abc'"), b = vp_string("b", "abc'");
    vp_assume(a.size() < 100000);
    ca_env e;
    SET_t r = srch(vp_bool("function_form"), true, a, b, e);
    vp_assert(e.count() == 0 && r.type == SET_t_enum::A_TYPE, "FIND result");
    int32_t v = r.access_a();
    vp_assert(v >= 0 && v <= (int32_t)a.size(), "FIND range");
    if (v)
    {
        bool in = b.find(a[v - 1]) != std::string::npos;
        vp_assert(in, "FIND points at a searched character");
    }
    VP_FORALL(k, v ? (size_t)v - 1 : a.size())
    VP_FORALL(m, b.size())
    vp_assert(a[k] != b[m], "FIND misses no earlier character");
}
// INDEX: first position of the whole second operand
VP_ENTRY(str_index)
{
    std::string a = vp_string("a", "ab"), b = vp_string("b", "ab");
    vp_assume(a.size() < 100000);
    vp_assume(b.size() > 0);
    ca_env e;
    SET_t r = srch(vp_bool("function_form"), false, a, b, e);
    vp_assert(e.count() == 0 && r.type == SET_t_enum::A_TYPE, "INDEX result");
    int32_t v = r.access_a();
    vp_assert(v >= 0 && v <= (int32_t)a.size(), "INDEX range");
    if (v)
        vp_assert(a.compare((size_t)v - 1, b.size(), b) == 0, "INDEX points at an occurrence");
    VP_FORALL(k, v ? (size_t)v - 1 : a.size())
    vp_assert(a.compare(k, b.size(), b) != 0, "INDEX misses no earlier occurrence");
}
// ------------------------------------------------------------------------------------------ substring and duplication
namespace {
ca_expr_ptr num(int32_t v) { return std::make_unique<ca_constant>(v, range()); }
semantics::concat_chain chain(const std::string& s)
{
    semantics::concat_chain c;
    c.push_back(std::make_unique<semantics::char_str_conc>(s, range()));
    return c;
}
} // namespace
// 'string'(start,count): characters start.. of the string, at most count of them
VP_ENTRY(str_substring)
{
    std::string s = vp_string("s");
    int32_t start = vp_i32("start"), count = vp_i32("count");
    ca_string::substring_t sub;
    sub.start = num(start);
    sub.count = num(count);
    ca_string c(chain(s), nullptr, std::move(sub), range());
    ca_env e;
    SET_t r = c.evaluate(e.ctx);
    vp_assert(r.type == SET_t_enum::C_TYPE, "substring result is a string");
    const std::string& o = r.access_c();
    if (s.size() > LIMIT)
        vp_assert(e.count() == 1 && e.code() == "CE011" && o.empty(), "string over the limit is diagnosed");
    else if (start < 0 || count < 0 || (start == 0 && count > 0))
        vp_assert(e.count() == 1 && e.code() == "CE008" && o.empty(), "invalid substring bounds are diagnosed");
    else if ((size_t)start > s.size())
        vp_assert(e.count() == 1 && e.code() == "CE009" && o.empty(), "substring past the end is diagnosed");
    else
    {
        size_t n = count == 0 ? 0 : std::min((size_t)count, s.size() - ((size_t)start - 1));
        vp_assert(e.count() == 0 && o.size() == n, "substring length");
        VP_FORALL(k, n)
        vp_assert(o[k] == s[(size_t)start - 1 + k], "substring characters");
        vp_cover("valid");
    }
}
// 'string'(start,*): the rest of the string
VP_ENTRY(str_substring_rest)
{
    std::string s = vp_string("s");
    int32_t start = vp_i32("start");
    ca_string::substring_t sub;
    sub.start = num(start);
    ca_string c(chain(s), nullptr, std::move(sub), range());
    ca_env e;
    SET_t r = c.evaluate(e.ctx);
    vp_assert(r.type == SET_t_enum::C_TYPE, "substring result is a string");
    const std::string& o = r.access_c();
    if (s.size() > LIMIT)
        vp_assert(e.count() == 1 && e.code() == "CE011" && o.empty(), "string over the limit is diagnosed");
    else if (start <= 0)
        vp_assert(e.count() == 1 && e.code() == "CE008" && o.empty(), "invalid substring bounds are diagnosed");
    else if ((size_t)start > s.size())
        vp_assert(e.count() == 1 && (e.code() == "CE009" || e.code() == "CE008") && o.empty(), "substring past the end is diagnosed");
    else
    {
        size_t n = s.size() - ((size_t)start - 1);
        vp_assert(e.count() == 0 && o.size() == n, "substring length");
        VP_FORALL(k, n)
        vp_assert(o[k] == s[(size_t)start - 1 + k], "substring characters");
        vp_cover("valid");
    }
}
namespace {
struct gdup
{
    int32_t i, n;
    const std::string* s;
    std::string out;
    void step()
    {
        out += *s;
        ++i;
    }
    bool done() const { return i >= n; }
};
template<typename F>
void dup_post(F f)
{
    std::string s = vp_string("s");
    int32_t d = vp_i32("factor");
    ca_env e;
    SET_t r = f(e, s, d);
    vp_assert(r.type == SET_t_enum::C_TYPE, "duplication result is a string");
    const std::string& o = r.access_c();
    if (s.size() > LIMIT)
        return;
    if (d < 0)
        vp_assert(e.count() == 1 && e.code() == "CE010" && o.empty(), "negative duplication factor is diagnosed");
    else if ((uint64_t)s.size() * (uint64_t)d > LIMIT)
        vp_assert(e.count() == 1 && e.code() == "CE011" && o.empty(), "duplication over the limit is diagnosed");
    else
        vp_assert(e.count() == 0 && o.size() == s.size() * (size_t)d, "duplication length");
}
SET_t dup_string(ca_env& e, const std::string& s, int32_t d)
{
    ca_string c(chain(s), num(d), ca_string::substring_t(), range());
    return c.evaluate(e.ctx);
}
SET_t dup_func(ca_env& e, const std::string& s, int32_t d) { return call(e, ca_expr_funcs::UPPER, s, num(d)); }
} // namespace
VP_ENTRY(dup_len) { dup_post(dup_string); }
VP_ENTRY(dup_len_func) { dup_post(dup_func); }
// every copy is the string itself
VP_ENTRY(dup_value)
{
    std::string s = vp_string("s");
    int32_t d = vp_in<int32_t>("factor", 0, 4064);
    vp_assume(s.size() * (size_t)d <= LIMIT && s.size() <= LIMIT);
    gdup g { 0, d, &s, "" };
    vp_ghost(g);
    ca_env e;
    SET_t r = dup_string(e, s, d);
    vp_finish(g);
    vp_assert(e.count() == 0 && r.type == SET_t_enum::C_TYPE && r.access_c() == g.out, "duplicated value");
}
// ------------------------------------------------------------------------------------------ concatenation
VP_ENTRY(conc)
{
    std::string a = vp_string("a"), b = vp_string("b");
    ca_basic_binary_operator<ca_conc> op(mk(a), mk(b), range());
    ca_env e;
    SET_t r = op.evaluate(e.ctx);
    vp_assert(r.type == SET_t_enum::C_TYPE, "concatenation result is a string");
    const std::string& o = r.access_c();
    if (a.size() + b.size() > LIMIT)
        vp_assert(e.count() == 1 && e.code() == "CE011" && o.empty(), "concatenation over the limit is diagnosed");
    else
    {
        vp_assert(e.count() == 0 && o.size() == a.size() + b.size(), "concatenation length");
        VP_FORALL(k, a.size())
        vp_assert(o[k] == a[k], "left part");
        VP_FORALL(m, b.size())
        vp_assert(o[a.size() + m] == b[m], "right part");
    }
}
