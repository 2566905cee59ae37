#ifndef MC_SHIM_CHAR32_H_
#define MC_SHIM_CHAR32_H_
typedef int char32;
#endif  // MC_SHIM_CHAR32_H_
