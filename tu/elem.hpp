#pragma once
#include <cstdint>
// the element type the container contracts are proved for: identity travels with copies and moves, a moved-from
// element is recognisable, a destroyed one is poisoned
struct elem
{
    std::uint64_t id;
    elem() noexcept : id(0xdefa017) {}
    explicit elem(std::uint64_t i) noexcept : id(i) {}
    elem(const elem& o) noexcept : id(o.id) {}
    elem(elem&& o) noexcept : id(o.id) { o.id = 0x30bed; }
    elem& operator=(const elem& o) noexcept { id = o.id; return *this; }
    elem& operator=(elem&& o) noexcept { auto i = o.id; o.id = 0x30bed; id = i; return *this; }
    ~elem() { id = 0xdead; }
};
