// Opaque argument types for instantiating the library: declared, never defined,
// so nothing about them can be assumed beyond the documented interface.
#pragma once
#include <bits/stdc++.h>
namespace wit {
    struct S { S(); S(const S&); S(S&&); S& operator=(const S&); S& operator=(S&&); ~S(); int opaque[3]; };
    bool operator<(const S&, const S&); bool operator==(const S&, const S&); bool operator!=(const S&, const S&);
    std::ostream& operator<<(std::ostream&, const S&);
    struct SB { SB(); SB(const SB&); SB(SB&&); SB& operator=(const SB&); SB& operator=(SB&&); ~SB(); bool fail; };
    struct F { F(); F(const F&); F(F&&); F& operator=(const F&); F& operator=(F&&); ~F(); int opaque[5]; };
    bool operator==(const F&, const F&); bool operator!=(const F&, const F&);
    S op(S, S); S e(); S toggle(S); S inv(S);
    F id(); F composition(F, F); F finv(F);
    S mapping(F, S); S mapping_len(F, S, int); S mapping_ll(F, S, long long, long long); S init_ll(long long, long long);
    SB opb(SB, SB); SB eb(); SB mappingb(F, SB);
    bool pred(S); bool predl(long long);
    long long opl(long long, long long); long long el(); long long negl(long long); long long togl(long long);
    long long mapl(long long, long long); long long mapl_len(long long, long long, int);
    struct K { K(); K(const K&); K& operator=(const K&); ~K(); bool operator<(const K&) const; bool operator>(const K&) const; bool operator<=(const K&) const; bool operator>=(const K&) const; bool operator==(const K&) const; bool operator!=(const K&) const; int k; };
    template <class T> T any();
    template <class... A> void sink(A&&...);
}
