#pragma once
#include "qi_numeric.hpp"
namespace nsa_std { double nsa_some_double(); }
namespace boost { namespace spirit { namespace qi {
    template <typename It> inline bool nsa_digit(It i, It last) { return i != last && *i >= '0' && *i <= '9'; }
    template <typename It, typename T, typename A>
    inline bool nsa_parse(It& first, It last, nsa_number<T>, A& out)
    {
        It i = first;
        bool negative = false;
        if (nsa_limits<T>::is_signed && i != last && (*i == '-' || *i == '+'))
        {
            negative = *i == '-';
            ++i;
        }
        if (!nsa_digit(i, last))
            return false;
        long long value = 0;
        for (; nsa_digit(i, last); ++i)
        {
            value = value * 10 + (negative ? -(*i - '0') : (*i - '0'));
            if (nsa_limits<T>::too_big(value))
                return false;
        }
        out = static_cast<A>(value);
        first = i;
        return true;
    }
    template <typename It, typename A>
    inline bool nsa_parse(It& first, It last, nsa_number<double>, A& out)
    {
        It i = first;
        if (i != last && (*i == '-' || *i == '+'))
            ++i;
        bool digits = false;
        for (; nsa_digit(i, last); ++i)
            digits = true;
        if (i != last && *i == '.')
        {
            ++i;
            for (; nsa_digit(i, last); ++i)
                digits = true;
        }
        if (!digits)
            return false;
        if (i != last && (*i == 'e' || *i == 'E'))
        {
            It e = i;
            ++e;
            if (e != last && (*e == '-' || *e == '+'))
                ++e;
            if (nsa_digit(e, last))
            {
                for (; nsa_digit(e, last); ++e)
                    ;
                i = e;
            }
        }
        out = nsa_std::nsa_some_double();
        first = i;
        return true;
    }
    template <typename It, typename P, typename A> inline bool parse(It const& first, It last, P const& p, A& out) { It i = first; return nsa_parse(i, last, p, out); }
    template <typename It, typename P, typename A> inline bool parse(It& first, It last, P const& p, A& out) { return nsa_parse(first, last, p, out); }
} } }
