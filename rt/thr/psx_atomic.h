// Included first by harnesses of code that synchronises through atomics: every access to a std::atomic becomes a scheduling point.
#pragma once
#ifdef __cplusplus
extern "C" void psx_atomic_point();
#define __atomic_load_n(...) (psx_atomic_point(), __atomic_load_n(__VA_ARGS__))
#define __atomic_store_n(...) (psx_atomic_point(), __atomic_store_n(__VA_ARGS__))
#define __atomic_load(...) (psx_atomic_point(), __atomic_load(__VA_ARGS__))
#define __atomic_store(...) (psx_atomic_point(), __atomic_store(__VA_ARGS__))
#define __atomic_exchange_n(...) (psx_atomic_point(), __atomic_exchange_n(__VA_ARGS__))
#define __atomic_exchange(...) (psx_atomic_point(), __atomic_exchange(__VA_ARGS__))
#define __atomic_compare_exchange_n(...) (psx_atomic_point(), __atomic_compare_exchange_n(__VA_ARGS__))
#define __atomic_compare_exchange(...) (psx_atomic_point(), __atomic_compare_exchange(__VA_ARGS__))
#define __atomic_add_fetch(...) (psx_atomic_point(), __atomic_add_fetch(__VA_ARGS__))
#define __atomic_sub_fetch(...) (psx_atomic_point(), __atomic_sub_fetch(__VA_ARGS__))
#define __atomic_fetch_add(...) (psx_atomic_point(), __atomic_fetch_add(__VA_ARGS__))
#define __atomic_fetch_sub(...) (psx_atomic_point(), __atomic_fetch_sub(__VA_ARGS__))
#endif
