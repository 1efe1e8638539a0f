// Stand-in for the CMake-generated export header (visibility attributes only).
#pragma once
#define CORO_EXPORT
#define CORO_NO_EXPORT
#define CORO_DEPRECATED
