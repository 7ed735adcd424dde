#pragma once
#include "../eval.h"
namespace CuraFormulaeEngine::ast { struct ExprPtr { eval::Result evaluate(const env::Environment*) const { return {}; } }; }
