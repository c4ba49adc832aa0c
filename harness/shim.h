// Parsers behind a small seam, so that explorers need not include the parser's headers.
#pragma once
#include "Narsese/include/Narsese.h"
#include "Interpreter/include/Interpreter.hpp"
#include <string>
namespace SHIM
{
    void *new_parser();
    void del_parser(void *);
    TASK::pTask parse(void *parser, const std::string &line); // on the given parser
    TASK::pTask parse(const std::string &line);               // on a shared parser
    void drop_shared();
}
