#include "shim.h"
#include "Narsese/Parser/NarseseParser.h"
namespace SHIM
{
    using NARSESEPARSER::NarseseParser;
    static NarseseParser *shared = nullptr;
    void *new_parser() { return new NarseseParser; }
    void del_parser(void *p) { delete (NarseseParser *)p; }
    TASK::pTask parse(void *p, const std::string &line)
    {
        std::string s(line);
        return ((NarseseParser *)p)->parse_task(s);
    }
    TASK::pTask parse(const std::string &line)
    {
        if (!shared) shared = new NarseseParser;
        return parse(shared, line);
    }
    void drop_shared() { delete shared; shared = nullptr; }
}
