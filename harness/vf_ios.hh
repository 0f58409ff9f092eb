// Verifier-side meaning of the few libstdc++ functions that live only in the shared library (no body in a header)
// and that any std::ostream/std::istream over a streambuf runs into.  Everything else of <iostream> that the code
// reaches is the library's own template text.  The native replay build uses the real library instead.
#pragma once
#include <ios>
#include <locale>
#include <streambuf>
#include <istream>
#include <ostream>
#ifdef VERIF_IR
namespace std
{
locale::locale() noexcept : _M_impl(nullptr) { }
locale::locale(const locale &o) noexcept : _M_impl(nullptr) { }
locale::~locale() noexcept { }
const locale &locale::operator=(const locale &) noexcept { return *this; }
ios_base::ios_base() noexcept
    : _M_precision(6), _M_width(0), _M_flags(skipws | dec), _M_exception(goodbit), _M_streambuf_state(goodbit),
      _M_callbacks(nullptr), _M_word_zero(), _M_local_word(), _M_word_size(_S_local_word_size), _M_word(_M_local_word)
{
}
ios_base::~ios_base() { }
void ios_base::_M_init() noexcept
{
    _M_precision = 6;
    _M_width = 0;
    _M_flags = skipws | dec;
}
int ios_base::xalloc() noexcept { return 4; }
template<>
void basic_ios<char>::init(basic_streambuf<char> *sb)
{
    ios_base::_M_init();
    _M_ctype = nullptr;
    _M_num_put = nullptr;
    _M_num_get = nullptr;
    _M_fill = char();
    _M_fill_init = false;
    _M_tie = nullptr;
    _M_exception = goodbit;
    _M_streambuf = sb;
    _M_streambuf_state = sb ? goodbit : badbit;
}
template<>
void basic_ios<char>::clear(iostate state)
{
    _M_streambuf_state = _M_streambuf ? state : iostate(state | badbit);
    if (exceptions() & rdstate())
        throw 1;
}
} // namespace std
#endif
