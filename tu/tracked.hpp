#pragma once
#include <cstdint>
extern "C" { void vc_tv_make(void*, std::uint64_t) noexcept; void vc_tv_copy(void*, const void*); void vc_tv_move(void*, void*) noexcept; void vc_tv_dtor(void*) noexcept; void vc_tv_assign_copy(void*, const void*); void vc_tv_assign_move(void*, void*) noexcept; }
struct tv
{
    std::uint64_t id;
    explicit tv(std::uint64_t i) noexcept { vc_tv_make(this, i); }
    tv(const tv& o) { vc_tv_copy(this, &o); }
    tv(tv&& o) noexcept { vc_tv_move(this, &o); }
    tv& operator=(const tv& o) { vc_tv_assign_copy(this, &o); return *this; }
    tv& operator=(tv&& o) noexcept { vc_tv_assign_move(this, &o); return *this; }
    ~tv() { vc_tv_dtor(this); }
};
// copies, cannot be moved
struct tvc
{
    std::uint64_t id;
    explicit tvc(std::uint64_t i) noexcept { vc_tv_make(this, i); }
    tvc(const tvc& o) { vc_tv_copy(this, &o); }
    tvc(tvc&& o) = delete;
    ~tvc() { vc_tv_dtor(this); }
};
