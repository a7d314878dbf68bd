// A real evaluation_context whose surroundings (assembler context, library provider) are never touched by the
// code under contract except for the source position stamped on diagnostics: processing_stack() is replaced by a
// one-frame stack (the only stub; it does not influence any verified result).
#ifndef VP_CA_ENV_H
#define VP_CA_ENV_H
#include <new>
#include "vp.h"
#include "expressions/evaluation_context.h"
#include "context/hlasm_context.h"
namespace hlasm_plugin::parser_library::context {
processing_frame::processing_frame(location l, const code_scope& s, file_processing_type t)
    : proc_location(std::move(l)), scope(s), proc_type(t)
{}
processing_stack_t hlasm_context::processing_stack() const
{
    processing_stack_t r;
    r.emplace_back(location(), *(const code_scope*)this, file_processing_type::OPENCODE);
    return r;
}
} // namespace hlasm_plugin::parser_library::context

struct ca_env
{
    char hc[64];
    char lp[64];
    hlasm_plugin::parser_library::expressions::evaluation_context ctx;
    ca_env()
        : ctx(hlasm_plugin::parser_library::analyzing_context {
                  hlasm_plugin::parser_library::context::hlasm_ctx_ptr(
                      std::shared_ptr<void>(), (hlasm_plugin::parser_library::context::hlasm_context*)hc),
                  nullptr },
              *(hlasm_plugin::parser_library::workspaces::parse_lib_provider*)lp)
    {}
    size_t count() { return ctx.diags().size(); }
    const std::string& code() { return ctx.diags().front().code; }
};
#endif
#ifndef VP_CA_LEAF
#define VP_CA_LEAF
#include "expressions/conditional_assembly/ca_expression.h"
// an already evaluated operand (its diagnostics belong to the operand)
struct leaf final : hlasm_plugin::parser_library::expressions::ca_expression
{
    using SET_t = hlasm_plugin::parser_library::context::SET_t;
    SET_t v;
    leaf(SET_t v_)
        : ca_expression(v_.type, hlasm_plugin::parser_library::range())
        , v(std::move(v_))
    {}
    hlasm_plugin::parser_library::expressions::undef_sym_set get_undefined_attributed_symbols(
        const hlasm_plugin::parser_library::expressions::evaluation_context&) const override
    {
        return {};
    }
    void resolve_expression_tree(hlasm_plugin::parser_library::context::SET_t_enum) override {}
    bool is_character_expression() const override
    {
        return v.type == hlasm_plugin::parser_library::context::SET_t_enum::C_TYPE;
    }
    void apply(hlasm_plugin::parser_library::expressions::ca_expr_visitor&) const override {}
    void collect_diags() const override {}
    SET_t evaluate(const hlasm_plugin::parser_library::expressions::evaluation_context&) const override { return v; }
};
inline hlasm_plugin::parser_library::expressions::ca_expr_ptr mk(leaf::SET_t v)
{
    return std::make_unique<leaf>(std::move(v));
}
#endif
