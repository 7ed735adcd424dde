#pragma once
#include "../ast/ast.h"
namespace CuraFormulaeEngine::parser { typedef int error_t; inline zeus::expected<ast::ExprPtr, error_t> parse(std::string_view) { return {}; } }
