/* EPICS Base is installed here for g++ only; let clang parse its g++ header. */
#pragma push_macro("__clang__")
#undef __clang__
#include_next <compilerSpecific.h>
#pragma pop_macro("__clang__")
