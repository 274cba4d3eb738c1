// Stand-in for ryanhaining/cppitertools (an empty submodule in this sandbox): only iter::enumerate, iter::range, iter::zip-free.
#pragma once
#include <cstddef>
#include <iterator>
#include <tuple>
#include <utility>
namespace iter {
template <class C> class Enumerated {
    C c_;
    using It = decltype(std::begin(std::declval<C&>()));
    using End = decltype(std::end(std::declval<C&>()));
public:
    struct Item : std::pair<std::size_t, decltype(*std::declval<It&>())> {
        using Base = std::pair<std::size_t, decltype(*std::declval<It&>())>;
        using Base::Base;
        std::size_t index() const { return this->first; }
        decltype(auto) element() const { return this->second; }
    };
    explicit Enumerated(C&& c, std::size_t start) : c_(std::forward<C>(c)), start_(start) {}
    struct Iter {
        std::size_t i; It it;
        Item operator*() { return Item{i, *it}; }
        Iter& operator++() { ++i; ++it; return *this; }
        template <class O> bool operator!=(const O& o) const { return it != o.it; }
        template <class O> bool operator==(const O& o) const { return it == o.it; }
    };
    struct Sentinel { std::size_t i; End it; };
    Iter begin() { return {start_, std::begin(c_)}; }
    Sentinel end() { return {0, std::end(c_)}; }
private:
    std::size_t start_;
};
template <class C> Enumerated<C> enumerate(C&& c, std::size_t start = 0) { return Enumerated<C>(std::forward<C>(c), start); }
}
namespace std {
}
