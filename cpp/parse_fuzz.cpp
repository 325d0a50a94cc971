// libFuzzer target: the input is a few lines, each parsed by one parser, printed and dropped.
#include "Narsese/include/Narsese.h"
#include "Narsese/Parser/NarseseParser.h"
#include "Interpreter/include/Interpreter.hpp"
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <string>
#include <vector>
#include <fcntl.h>
#include <sys/resource.h>
#include <unistd.h>

using INTERPRETER::interpreter;
using NARSESEPARSER::NarseseParser;
using TASK::pTask;

extern "C" int LLVMFuzzerInitialize(int *argc, char ***argv)
{
    struct rlimit rl;
    getrlimit(RLIMIT_STACK, &rl);
    rlim_t want = 512ul << 20;
    if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < want && !getenv("FZ_STACK"))
    {
        rl.rlim_cur = rl.rlim_max == RLIM_INFINITY || rl.rlim_max > want ? want : rl.rlim_max;
        setenv("FZ_STACK", "1", 1);
        if (setrlimit(RLIMIT_STACK, &rl) == 0)
            execv("/proc/self/exe", *argv);
    }
    return 0;
}

extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size)
{
    std::string all((const char *)data, size);
    {
        std::unique_ptr<NarseseParser> parser(new NarseseParser());
        std::vector<pTask> kept;
        size_t i = 0;
        int n = 0;
        while (n++ < 12)
        {
            size_t e = all.find('\n', i);
            std::string line = all.substr(i, e == std::string::npos ? e : e - i);
            pTask t;
            bool thrown = false;
            try
            {
                t = parser->parse_task(line);
            }
            catch (std::exception &)
            {
                thrown = true;
            }
            if (!thrown && t != nullptr)
            {
                try
                {
                    std::string plain = interpreter.interpret(*t, false), coloured = interpreter.interpret(*t, true);
                    if (coloured.size() < plain.size())
                        abort();
                    pTask again = parser->parse_task(plain);
                    if (again != nullptr)
                        (void)interpreter.interpret(*again, false);
                }
                catch (std::exception &)
                {
                }
                if (n % 2)
                    kept.push_back(t);
            }
            if (e == std::string::npos)
                break;
            i = e + 1;
        }
        if (size % 2)
            parser.reset(); // the parser goes first
        for (auto &t : kept)
            (void)interpreter.interpret(*t, false);
    }
    interpreter.reset();
    GLOBAL::_input_id = 0;
    return 0;
}
