// The second translation unit of C14: sentences and stamps are made here with this unit's view of the clock and of the counter of ids.
#include "Narsese/include/Narsese.h"
using namespace SENTENCE;
namespace OTHER
{
    pSentence make(int way, const TERM::pTerm &t)
    {
        switch (way)
        {
        case 0: return pSentence(new Judgement(t));
        case 1: return pSentence(new Question(t));
        case 2: return pSentence(new Goal(t, nullptr));
        case 3: return pSentence(new Quest(t));
        default: return Sentence::create(t, (PUNCTUATION::Punctuation)(way % 4));
        }
    }
    pStamp stamp(int way, int t)
    {
        switch (way)
        {
        case 0: return Stamp::create(t);
        case 1: return Stamp::create(true);
        case 2: return pStamp(new Stamp(t, GLOBAL::time, -1, nullptr, false));
        default: return pStamp(new Stamp(true));
        }
    }
}
