// Verifier-side model of std::stringstream for integer/hex/string formatting (standard library, assumed):
// fields are right aligned, setw applies to the next item only, hex of a signed value prints its unsigned pattern.
#pragma once
#include <iomanip>
#include <iostream>
#include <sstream>
#include <string>
#include <type_traits>
namespace std {
struct vp_stringstream
{
    string b;
    int w = 0;
    char f = ' ';
    bool up = false;
    unsigned base = 10;
    vp_stringstream() = default;
    string str() const { return b; }
    void field(const string& t)
    {
        for (size_t i = t.size(); (int)i < w; ++i)
            b.push_back(f);
        w = 0;
        b += t;
    }
    vp_stringstream& operator<<(_Setw x) { w = x._M_n; return *this; }
    vp_stringstream& operator<<(_Setfill<char> x) { f = x._M_c; return *this; }
    vp_stringstream& operator<<(ios_base& (*m)(ios_base&))
    {
        if (m == (ios_base & (*)(ios_base&)) uppercase) up = true;
        if (m == (ios_base & (*)(ios_base&)) hex) base = 16;
        if (m == (ios_base & (*)(ios_base&)) dec) base = 10;
        return *this;
    }
    vp_stringstream& operator<<(char c) { field(string(1, c)); return *this; }
    vp_stringstream& operator<<(const char* c) { field(string(c)); return *this; }
    vp_stringstream& operator<<(const string& c) { field(c); return *this; }
    template<typename T, typename = enable_if_t<is_integral_v<T> && (sizeof(T) > 1)>>
    vp_stringstream& operator<<(T v)
    {
        if (base == 10) { field(to_string(v)); return *this; }
        make_unsigned_t<T> u = v;
        string d;
        unsigned n = 1;
        while (n < sizeof(T) * 2 && (u >> (4 * n))) ++n;
        for (unsigned k = n; k-- > 0;)
        {
            unsigned x = (u >> (4 * k)) & 15;
            d.push_back((char)(x < 10 ? '0' + x : (up ? 'A' : 'a') + (x - 10)));
        }
        field(d);
        return *this;
    }
};
} // namespace std
#define stringstream vp_stringstream
