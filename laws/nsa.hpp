// Vocabulary of the law files.  These functions are never executed: the analyser gives them meaning.
#pragma once
#include <cstddef>
namespace nsa
{
    void require(bool aCondition, const char* aWhat);   // obligation
    void assume(bool aCondition);                       // restrict the analysed states
    void may_throw();                                   // both returns normally and throws nsa::exception
    struct exception {};
    template <typename T> T nondet();
    template <typename... A> void show(A...);
    inline int destroyed = 0;                           // ghost: incremented by destructors of law objects
}
