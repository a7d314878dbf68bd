// Contracts of variable symbols, macro operands and the substitution of their values.
// SRC: parser_library/src/context/macro.cpp parser_library/src/context/macro_param_data.cpp parser_library/src/context/common_types.cpp
// SRC: parser_library/src/context/variables/macro_param.cpp parser_library/src/context/variables/set_symbol.cpp parser_library/src/context/variables/system_variable.cpp parser_library/src/context/variables/variable.cpp
// SRC: parser_library/src/processing/context_manager.cpp parser_library/src/semantics/concatenation.cpp parser_library/src/semantics/concatenation_term.cpp parser_library/src/semantics/variable_symbol.cpp
// SRC: parser_library/src/processing/instruction_sets/macro_processor.cpp parser_library/src/diagnostic.cpp parser_library/src/diagnostic_adder.cpp parser_library/src/context/id_storage.cpp parser_library/src/lexing/lexer.cpp
// SRC: parser_library/src/expressions/conditional_assembly/terms/ca_constant.cpp parser_library/src/expressions/conditional_assembly/ca_expression.cpp parser_library/src/context/statement_cache.cpp
// NOTE: the lookup of a variable symbol by name (hlasm_context::get_var_sym) is replaced by a table of the contract
// CASES set_array.*|set_scalar.*: two assignments to one symbol, any subscripts and values (all obligations discharged for this structure)
// CASES conc_dot|conc_sublist|conc_clear: concatenations of up to four points, any texts and values (all obligations discharged for this structure)
// CASES call_.*: macros of two positional and one keyword parameter, calls with up to three operands of any text (all obligations discharged for this structure)
// CASES list_.*: sublists of up to three entries of any text, four levels (all obligations discharged for this structure)
#include "ca_env.h"
#include "context/macro.h"
#include "context/variables/set_symbol.h"
#include "context/variables/system_variable.h"
#include "expressions/conditional_assembly/terms/ca_constant.h"
#include "processing/context_manager.h"
#include "processing/instruction_sets/macro_processor.h"
#include "semantics/concatenation.h"
#include "semantics/concatenation_term.h"
#include "semantics/variable_symbol.h"
using namespace hlasm_plugin::parser_library;
using namespace hlasm_plugin::parser_library::context;
namespace {
const std::string nv = "V", nw = "W", np = "P", nq = "Q", nk = "K", nl = "LAB", nm = "MAC", nsys = "SYSLIST";
var_sym_ptr tab[2];
} // namespace
namespace hlasm_plugin::parser_library::context {
var_sym_ptr hlasm_context::get_var_sym(id_index n) { return n == &nv ? tab[0] : n == &nw ? tab[1] : nullptr; }
} // namespace hlasm_plugin::parser_library::context
// ---------------------------------------------------------------- SET symbols
namespace {
size_t sub(const char* n) { return (size_t)vp_in<int32_t>(n, 1, INT32_MAX); }
SET_t rd(ca_env& e, std::vector<A_t> s) { return processing::context_manager(&e.ctx).get_var_sym_value(&nv, s, range()); }
template<typename T>
void array(T a, T b, T dflt, bool eq(const SET_t&, const T&))
{
    size_t i = sub("i"), j = sub("j"), k = sub("k");
    auto s = std::make_shared<set_symbol<T>>(&nv, false, false);
    tab[0] = s;
    vp_assert(s->number({}) == 0, "N' of a symbol without values");
    s->set_value(a, i - 1);
    s->set_value(b, j - 1);
    ca_env e;
    SET_t r = rd(e, { (A_t)k });
    vp_assert(e.count() == 0 && r.type == object_traits<T>::type_enum, "readable");
    vp_assert(eq(r, k == j ? b : k == i ? a : dflt), "the last value assigned to that subscript");
    vp_assert(s->number({}) == (A_t)(i > j ? i : j), "N' is the highest subscript");
    tab[0] = nullptr;
}
} // namespace
VP_ENTRY(set_array_a) { array<A_t>(vp_i32("a"), vp_i32("b"), 0, +[](const SET_t& r, const A_t& x) { return SET_t(r).access_a() == x; }); }
VP_ENTRY(set_array_b) { array<B_t>(vp_bool("a"), vp_bool("b"), false, +[](const SET_t& r, const B_t& x) { return SET_t(r).access_b() == x; }); }
VP_ENTRY(set_array_c) { array<C_t>(vp_string("a"), vp_string("b"), "", +[](const SET_t& r, const C_t& x) { return SET_t(r).access_c() == x; }); }
VP_ENTRY(set_scalar)
{
    A_t a = vp_i32("a"), b = vp_i32("b");
    auto s = std::make_shared<set_symbol<A_t>>(&nv, true, false);
    tab[0] = s;
    ca_env e;
    vp_assert(rd(e, {}).access_a() == 0 && e.count() == 0, "initial value");
    s->set_value(a);
    s->set_value(b);
    SET_t r = rd(e, {});
    vp_assert(r.type == SET_t_enum::A_TYPE && r.access_a() == b && e.count() == 0 && s->number({}) == 0, "the last value");
    tab[0] = nullptr;
}
VP_ENTRY(set_scalar_c)
{
    std::string a = vp_string("a"), b = vp_string("b");
    auto s = std::make_shared<set_symbol<C_t>>(&nv, true, false);
    tab[0] = s;
    ca_env e;
    SET_t z = rd(e, {});
    vp_assert(z.type == SET_t_enum::C_TYPE && z.access_c().empty() && s->count({}) == 0, "initial value");
    s->set_value(a);
    s->set_value(b);
    SET_t r = rd(e, {});
    vp_assert(r.type == SET_t_enum::C_TYPE && r.access_c() == b && e.count() == 0 && s->count({}) == (A_t)b.size(), "the last value and its length");
    tab[0] = nullptr;
}
// wrong subscripts are diagnosed and give no value
VP_ENTRY(set_subscript)
{
    bool scalar = vp_bool("scalar");
    auto s = std::make_shared<set_symbol<A_t>>(&nv, scalar, false);
    s->set_value(7, 0);
    tab[0] = s;
    std::vector<A_t> v;
    A_t i = vp_i32("i");
    int n = vp_in<int>("n", 0, 2);
    if (n > 0)
        v.push_back(i);
    if (n > 1)
        v.push_back(vp_i32("j"));
    ca_env e;
    SET_t r = processing::context_manager(&e.ctx).get_var_sym_value(vp_bool("known") ? &nv : &np, v, range());
    bool known = e.count() == 0 || e.code() != "E010";
    if (!known)
        vp_assert(r.type == SET_t_enum::UNDEF_TYPE, "unknown symbol");
    else if (n > 1)
        vp_assert(e.count() == 1 && e.code() == "E020" && r.type == SET_t_enum::UNDEF_TYPE, "too many subscripts");
    else if (scalar != (n == 0))
        vp_assert(e.count() == 1 && e.code() == "E013" && r.type == SET_t_enum::UNDEF_TYPE, "subscript of a scalar, or none of an array");
    else if (!scalar && i < 1)
        vp_assert(e.count() == 1 && e.code() == "E012" && r.type == SET_t_enum::UNDEF_TYPE, "subscript below one");
    else
        vp_assert(e.count() == 0 && r.type == SET_t_enum::A_TYPE && r.access_a() == (scalar || i == 1 ? 7 : 0), "value");
    tab[0] = nullptr;
}
VP_ENTRY(set_unknown)
{
    ca_env e;
    SET_t r = rd(e, {});
    vp_assert(e.count() == 1 && e.code() == "E010" && r.type == SET_t_enum::UNDEF_TYPE, "an undefined symbol is diagnosed");
}
// ---------------------------------------------------------------- substitution
namespace {
using namespace semantics;
using semantics::concat_chain;
concat_point_ptr str(std::string s) { return std::make_unique<char_str_conc>(std::move(s), range()); }
concat_point_ptr dot() { return std::make_unique<dot_conc>(); }
concat_point_ptr equ() { return std::make_unique<equals_conc>(); }
concat_point_ptr var(id_index n) { return std::make_unique<var_sym_conc>(std::make_unique<basic_variable_symbol>(n, std::vector<expressions::ca_expr_ptr>(), range())); }
void scalar_c(int i, std::string v)
{
    auto s = std::make_shared<set_symbol<C_t>>(i ? &nw : &nv, true, false);
    s->set_value(std::move(v));
    tab[i] = s;
}
void done() { tab[0] = tab[1] = nullptr; }
} // namespace
VP_ENTRY(conc_value)
{
    A_t a = vp_i32("a");
    std::string r = var_sym_conc::evaluate(SET_t(a));
    uint64_t m = a < 0 ? 0u - (uint32_t)a : (uint32_t)a, v = 0;
    vp_assert(!r.empty() && r.size() <= 10 && (r.size() == 1 || r[0] != '0'), "no superfluous zeros");
    for (size_t i = 0; i < r.size(); ++i)
    {
        vp_assert(r[i] >= '0' && r[i] <= '9', "digits");
        v = v * 10 + (uint64_t)(r[i] - '0');
    }
    vp_assert(v == m, "the magnitude of an arithmetic value");
}
VP_ENTRY(conc_value_bc)
{
    bool b = vp_bool("b");
    std::string s = vp_string("s");
    std::string r = var_sym_conc::evaluate(SET_t(b));
    vp_assert(r.size() == 1 && r[0] == (b ? '1' : '0'), "a boolean value");
    vp_assert(var_sym_conc::evaluate(SET_t(s)) == s, "a character value");
    vp_assert(var_sym_conc::evaluate(SET_t()).empty(), "no value");
}
// &V.X  &V..X  X.Y  &V.&W  &V(=)
VP_ENTRY(conc_dot)
{
    std::string v = vp_string("v"), w = vp_string("w"), x = vp_string("x");
    scalar_c(0, v);
    scalar_c(1, w);
    ca_env e;
    concat_chain c;
    std::string expect;
    if (vp_bool("one"))
    {
        c.push_back(var(&nv));
        c.push_back(dot());
        c.push_back(str(x));
        expect = v + x;
    }
    else if (vp_bool("two"))
    {
        c.push_back(var(&nv));
        c.push_back(dot());
        c.push_back(dot());
        c.push_back(str(x));
        expect = v + "." + x;
    }
    else if (vp_bool("text"))
    {
        c.push_back(str(x));
        c.push_back(dot());
        c.push_back(var(&nw));
        expect = x + "." + w;
    }
    else if (vp_bool("vars"))
    {
        c.push_back(var(&nv));
        c.push_back(dot());
        c.push_back(var(&nw));
        c.push_back(dot());
        expect = v + w;
    }
    else
    {
        c.push_back(var(&nv));
        c.push_back(equ());
        c.push_back(dot());
        c.push_back(var(&nw));
        expect = v + "=." + w;
    }
    std::string r = concatenation_point::evaluate(c, e.ctx);
    vp_assert(r == expect && e.count() == 0, "only the dot that ends a variable symbol disappears");
    done();
}
VP_ENTRY(conc_sublist)
{
    std::string v = vp_string("v"), x = vp_string("x");
    scalar_c(0, v);
    ca_env e;
    std::vector<concat_chain> l;
    std::string expect = "(";
    int n = vp_in<int>("n", 0, 3);
    if (n > 0)
    {
        concat_chain c;
        c.push_back(str(x));
        l.push_back(std::move(c));
        expect += x;
    }
    if (n > 1)
    {
        l.emplace_back();
        expect += ",";
    }
    if (n > 2)
    {
        concat_chain c;
        c.push_back(var(&nv));
        c.push_back(dot());
        c.push_back(str(x));
        l.push_back(std::move(c));
        expect += "," + v + x;
    }
    expect += ")";
    concat_chain c;
    c.push_back(var(&nv));
    c.push_back(std::make_unique<sublist_conc>(std::move(l)));
    c.push_back(dot());
    std::string r = concatenation_point::evaluate(c, e.ctx);
    vp_assert(r == v + expect + "." && e.count() == 0, "a sublist keeps its entries and commas");
    done();
}
VP_ENTRY(conc_clear)
{
    std::string x = vp_string("x"), y = vp_string("y");
    concat_chain c;
    c.push_back(str(x));
    c.push_back(nullptr);
    c.push_back(std::make_unique<var_sym_conc>(nullptr));
    c.push_back(dot());
    c.push_back(dot());
    c.push_back(str(y));
    c.push_back(std::make_unique<equals_conc>());
    c.push_back(std::make_unique<equals_conc>());
    concatenation_point::clear_concat_chain(c);
    vp_assert(c.size() == 4u + !x.empty() + !y.empty(), "only empty points are removed");
    vp_assert(concatenation_point::to_string(c) == x + ".." + y + "==", "the text stays");
}
// ---------------------------------------------------------------- sublists
namespace {
macro_data_ptr single(std::string s) { return std::make_unique<macro_param_data_single>(std::move(s)); }
macro_data_ptr list(macro_data_ptr a, macro_data_ptr b)
{
    std::vector<macro_data_ptr> v;
    v.push_back(std::move(a));
    v.push_back(std::move(b));
    return std::make_unique<macro_param_data_composite>(std::move(v));
}
bool is_empty(const std::string& s) { return s.empty(); }
} // namespace
VP_ENTRY(list_access)
{
    std::string a = vp_string("a"), b = vp_string("b"), c = vp_string("c");
    macro_data_ptr d = list(single(a), list(single(b), single(c)));
    positional_param p(&np, 1, *d);
    size_t i = sub("i"), j = sub("j"), k = sub("k");
    vp_assert(p.get_value(std::vector<size_t> {}) == "(" + a + ",(" + b + "," + c + "))" && p.get_value() == "(" + a + ",(" + b + "," + c + "))", "the whole operand");
    const std::string& vi = p.get_value({ i });
    if (i == 1)
        vp_assert(vi == a, "first entry");
    else if (i == 2)
        vp_assert(vi == "(" + b + "," + c + ")", "second entry");
    else
        vp_assert(vi.empty(), "no such entry");
    const std::string& vij = p.get_value({ i, j });
    if (i == 1)
        vp_assert(j == 1 ? vij == a : vij.empty(), "an entry is its own first entry");
    else if (i == 2)
        vp_assert(j == 1 ? vij == b : j == 2 ? vij == c : vij.empty(), "nested entry");
    else
        vp_assert(vij.empty(), "no such entry");
    vp_assert(p.number({}) == 2 && p.number({ 2 }) == 2 && p.number({ 1 }) == (a.empty() ? 0 : 1) && p.number({ 3 }) == 0, "N'");
    vp_assert(p.count({ i, j }) == (A_t)vij.size() && p.count({ i }) == (A_t)vi.size(), "K'");
    vp_assert(i > 1 || k == 1 || p.get_value({ i, j, k }).empty(), "deeper");
}
// ---------------------------------------------------------------- macro calls
namespace {
macro_invo_ptr mcall(bool lab, std::string l, std::vector<macro_arg> args)
{
    std::vector<macro_arg> ps;
    ps.emplace_back(nullptr, &np);
    ps.emplace_back(single("dflt"), &nk);
    ps.emplace_back(nullptr, &nq);
    static macro_definition* def;
    def = new macro_definition(&nm, &nl, std::move(ps), {}, {}, {}, {});
    return def->call(lab ? single(std::move(l)) : nullptr, std::move(args), &nsys);
}
const std::string& val(const macro_invo_ptr& m, id_index n) { return m->named_params.at(n)->get_value(std::vector<size_t> {}); }
} // namespace
VP_ENTRY(call_binding)
{
    std::string l = vp_string("l"), a = vp_string("a"), b = vp_string("b"), c = vp_string("c"), k = vp_string("k");
    bool lab = vp_bool("lab"), key = vp_bool("key"), first = vp_bool("first");
    int n = vp_in<int>("n", 0, 3);
    std::vector<macro_arg> args;
    if (key && first)
        args.emplace_back(single(k), &nk);
    if (n > 0)
        args.emplace_back(single(a));
    if (key && !first)
        args.emplace_back(single(k), &nk);
    if (n > 1)
        args.emplace_back(single(b));
    if (n > 2)
        args.emplace_back(single(c));
    macro_invo_ptr m = mcall(lab, l, std::move(args));
    vp_assert(m->named_params.size() == 5, "every parameter exists");
    vp_assert(val(m, &nl) == (lab ? l : ""), "name field");
    vp_assert(val(m, &np) == (n > 0 ? a : ""), "first positional parameter");
    vp_assert(val(m, &nq) == (n > 1 ? b : ""), "second positional parameter");
    vp_assert(val(m, &nk) == (key ? k : "dflt"), "keyword parameter or its default");
    const auto& s = m->named_params.at(&nsys);
    vp_assert(s->number({}) == n, "N'&SYSLIST counts the positional operands");
    vp_assert(s->get_value({ (size_t)0 }) == (lab ? l : ""), "&SYSLIST(0) is the name field");
    size_t i = sub("i");
    const std::string& v = s->get_value({ i });
    if (i > (size_t)n)
        vp_assert(v.empty(), "no such operand");
    else
        vp_assert(i == 1 ? v == a : i == 2 ? v == b : v == c, "&SYSLIST(i) is the i-th positional operand");
    vp_assert(s->count({ i }) == (A_t)v.size(), "K'&SYSLIST(i)");
}
VP_ENTRY(call_sublist)
{
    std::string a = vp_string("a"), b = vp_string("b");
    std::vector<macro_arg> args;
    args.emplace_back(list(single(a), single(b)));
    macro_invo_ptr m = mcall(false, "", std::move(args));
    const auto &p = m->named_params.at(&np), &s = m->named_params.at(&nsys);
    size_t j = sub("j");
    vp_assert(p->get_value({ j }) == s->get_value({ 1, j }) && p->number({}) == 2 && s->number({ 1 }) == 2, "&SYSLIST(1,j) is &P(j)");
    vp_assert(j > 2 ? p->get_value({ j }).empty() : p->get_value({ j }) == (j == 1 ? a : b), "entries");
}
VP_ENTRY(call_syslist_deep)
{
    std::string a = vp_string("a"), b = vp_string("b"), c = vp_string("c"), d = vp_string("d");
    std::vector<macro_arg> args;
    args.emplace_back(single(d));
    args.emplace_back(list(single(a), list(list(single(b), single(c)), single(d))));
    macro_invo_ptr m = mcall(false, "", std::move(args));
    const auto &q = m->named_params.at(&nq), &s = m->named_params.at(&nsys);
    bool two = vp_bool("two"), second = vp_bool("second");
    size_t j = second ? 2 : 1;
    const std::string& deep = two ? d : second ? c : b;
    std::vector<size_t> at = two ? std::vector<size_t> { 2, 2, 2 } : std::vector<size_t> { 2, 2, 1, j };
    vp_assert(s->get_value(at) == deep && s->count(at) == (A_t)deep.size() && s->number(at) == (deep.empty() ? 0 : 1), "deep entries of &SYSLIST, K' and N'");
    at.erase(at.begin());
    vp_assert(q->get_value(at) == deep && q->count(at) == (A_t)deep.size() && q->number(at) == (deep.empty() ? 0 : 1), "and of the parameter");
    vp_assert(s->number({ 2, 2 }) == 2 && s->number({ 2, 2, 1 }) == 2 && q->number({ 2 }) == 2 && q->number({ 2, 1 }) == 2 && q->number({ 2, 3 }) == 0 && s->number({ 2, 2, 3 }) == 0, "N' of deep sublists");
    vp_assert(s->size({ 2, 2 }) == 2 && s->size({ 2, 2, 1 }) == 2 && q->size({ 2, 1 }) == 2, "sizes of deep sublists");
    vp_assert(s->count({ 2, 1 }) == (A_t)a.size() && s->count({ 2, 2, 1 }) == (A_t)(b.size() + c.size() + 3) && q->count({ 2, 1 }) == (A_t)(b.size() + c.size() + 3), "K' of deep sublists");
}
VP_ENTRY(call_unknown_keyword)
{
    std::vector<macro_arg> args;
    args.emplace_back(single(vp_string("k")), vp_bool("pos") ? &np : &nv);
    bool thrown = false;
    try
    {
        mcall(false, "", std::move(args));
    }
    catch (const std::invalid_argument&)
    {
        thrown = true;
    }
    vp_assert(thrown, "an operand does not become an undefined keyword parameter");
}
// ---------------------------------------------------------------- sublists in a value
// OPT parse_roundtrip: mode=bounded strcap=5 bwall=100
// OPT parse_list: mode=bounded strcap=3
// OPT parse_nested: mode=bounded strcap=3
// OPT parse_entry: mode=bounded strcap=3
VP_ENTRY(parse_roundtrip)
{
    std::string s = vp_string("s", "(),'LA");
    macro_data_ptr d = processing::macro_processor::string_to_macrodata(s);
    vp_assert(d->get_value() == s, "parsing an operand does not change its text");
}
// text without special characters: a list of three entries, each of any length
VP_ENTRY(parse_list)
{
    std::string a = vp_string_of("a", "ABCXYZ019=*"), b = vp_string_of("b", "ABCXYZ019=*"), c = vp_string_of("c", "ABCXYZ019=*");
    macro_data_ptr d = processing::macro_processor::string_to_macrodata("(" + a + "," + b + "," + c + ")");
    vp_assert(d->number == 3 && d->size() == 3, "N'");
    vp_assert(d->get_ith(0)->get_value() == a && d->get_ith(1)->get_value() == b && d->get_ith(2)->get_value() == c && is_empty(d->get_ith(3)->get_value()), "entries");
}
VP_ENTRY(parse_nested)
{
    std::string a = vp_string_of("a", "ABCXYZ019=*"), b = vp_string_of("b", "ABCXYZ019=*"), c = vp_string_of("c", "ABCXYZ019=*");
    bool first = vp_bool("first");
    std::string in = "(" + b + "," + c + ")";
    std::string s;
    if (first)
        s = "(" + in + "," + a + ")";
    else
        s = "(" + a + "," + in + ")";
    macro_data_ptr d = processing::macro_processor::string_to_macrodata(s);
    vp_assert(d->number == 2, "N'");
    const auto* l = d->get_ith(first ? 0 : 1);
    vp_assert(l->number == 2 && l->get_ith(0)->get_value() == b && l->get_ith(1)->get_value() == c, "nested entries");
    vp_assert(d->get_ith(first ? 1 : 0)->get_value() == a, "entry");
}
// an entry with a parenthesised prefix, a quoted comma, a subscript
VP_ENTRY(parse_entry)
{
    std::string a = vp_string_of("a", "ABCXYZ019=*"), b = vp_string_of("b", "ABCXYZ019=*"), e;
    if (vp_bool("prefix"))
    {
        vp_assume(!b.empty());
        e = "(" + a + ")" + b;
    }
    else if (vp_bool("quote"))
    {
        e = "C'" + a + ",)" + b + "'";
    }
    else
    {
        e = "X(" + a + "," + b + ")";
    }
    macro_data_ptr d = processing::macro_processor::string_to_macrodata("(" + e + ",Z)");
    vp_assert(d->number == 2 && d->get_ith(0)->size() == 0, "one entry");
    vp_assert(d->get_ith(0)->get_value() == e && d->get_ith(1)->get_value() == "Z", "its text is kept");
}
