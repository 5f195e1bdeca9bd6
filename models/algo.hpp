// Included before every analysed unit.  libstdc++ unrolls the linear search four times for random
// access iterators; this overload, preferred by partial ordering, is the same search written as one
// loop, so that the analysis sees one loop.
#pragma once
#include <bits/stl_algobase.h>
#include <bits/stl_iterator.h>
namespace std {
template <class T, class P>
constexpr T*
__find_if(T* first, T* last, P pred, random_access_iterator_tag)
{
    while (first != last && !pred(first))
        ++first;
    return first;
}
template <class T, class C, class P>
constexpr __gnu_cxx::__normal_iterator<T*, C>
__find_if(__gnu_cxx::__normal_iterator<T*, C> first, __gnu_cxx::__normal_iterator<T*, C> last, P pred, random_access_iterator_tag)
{
    while (first != last && !pred(first))
        ++first;
    return first;
}
}    // namespace std
