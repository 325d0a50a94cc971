// A second translation unit of the term executor: creates stamps and evidence identifiers of its own.
#include "Narsese/include/Narsese.h"
#include <string>
#include <vector>

std::vector<size_t> newid_elsewhere(const std::string &how)
{
    SENTENCE::pStamp s;
    if (how == "id")
        return {GLOBAL::get_input_id()};
    if (how == "stamp")
        s = SENTENCE::pStamp(new SENTENCE::Stamp(true));
    else if (how == "event")
        s = SENTENCE::pStamp(new SENTENCE::Stamp((signed int)5));
    else
        s = SENTENCE::Stamp::create(true);
    if (s->evidential_base == nullptr || s->evidential_base->_set == nullptr)
        return {};
    return std::vector<size_t>(s->evidential_base->_set->begin(), s->evidential_base->_set->end());
}
