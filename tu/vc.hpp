#pragma once
#define VC_OFF(name, T, f) extern "C" const unsigned long VC_off_##name = __builtin_offsetof(T, f);
#define VC_SIZE(name, T) extern "C" const unsigned long VC_off_##name = sizeof(T);
